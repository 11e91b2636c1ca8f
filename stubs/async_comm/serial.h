#pragma once
#include <mutex>
#include <string>
#include <thread>
#include "async_comm/comm.h"
namespace async_comm {
// the harness is the receiver at the other end
class Serial : public Comm
{
 public:
    Serial(std::string, unsigned) {}
    ~Serial() { close(); }
    bool init() override;
    void close() override;
    void sent(const uint8_t* p, size_t n) override
    {
        std::lock_guard<std::mutex> k(mutex);
        Comm::sent(p, n);
    }
    std::thread feeder;
    std::mutex mutex;
};
}  // namespace async_comm
