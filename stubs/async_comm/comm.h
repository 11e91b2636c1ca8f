// Stand-in for the async_comm serial port library (not installed here): same interface, no port.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>
namespace async_comm {
class CommListener
{
 public:
    virtual ~CommListener() = default;
    virtual void receive_callback(const uint8_t* buf, size_t size) = 0;
};
class Comm
{
 public:
    virtual ~Comm() = default;
    virtual bool init() { return true; }
    virtual void close() {}
    void register_listener(CommListener& l) { listener = &l; }
    void send_byte(uint8_t b) { sent(&b, 1); }
    void send_bytes(const uint8_t* p, size_t n) { sent(p, n); }
    virtual void sent(const uint8_t* p, size_t n)
    {
        out.insert(out.end(), p, p + n);
    }
    CommListener* listener = nullptr;
    std::vector<uint8_t> out;
};
}  // namespace async_comm
