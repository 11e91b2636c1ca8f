// C06: layered logs (amendments: the newest log that has a stream provides it) and logs cut short.
#include "log_common.h"

typedef std::vector<std::unique_ptr<AnyStream>> Streams;

VH_GROUP(amends)
{
    const int N = c.n(120, 4000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int depth = (int)c.rng.range(1, 4);
        const int keys = (int)c.rng.range(2, 5);
        int kind[8];
        for (int k = 0; k < keys; ++k) kind[k] = (int)c.rng.range(0, N_KINDS - 1);
        const int64_t base = c.rng.range(1000000000, 1900000000);
        std::vector<std::unique_ptr<Streams>> logs;
        std::vector<std::string> dirs;
        std::string d;
        UTCTime lo = UTCTime::max(), hi(0, 0);
        for (int l = 0; l < depth; ++l)
        {
            logs.emplace_back(new Streams);
            const UTCTime t0(base + c.rng.range(0, 50) * 10 + l, 0),
                t1(base + 1000 + c.rng.range(0, 1000), 7);
            if (t0 < lo) lo = t0;
            if (t1 > hi) hi = t1;
            const std::string root = c.scratch + vh::strf("/l%d", l);
            fs::create_directories(root);
            Logger lg(t0, root);
            d += vh::strf("log%d:", l);
            for (int k = 0; k < keys; ++k)
            {
                if (!c.rng.chance(0.6)) continue;
                logs.back()->emplace_back(makeKind(kind[k], k + 10));
                auto& s = *logs.back()->back();
                s.init(lg);
                const int n = (int)c.rng.range(0, 8);
                UTCTime t = t0 + 1;
                for (int j = 0; j < n; ++j)
                {
                    t += c.rng.range(0, 900) * 1e-3;
                    s.write(lg, c.rng, t);
                }
                d += vh::strf("%d x%d ", k, n);
            }
            if (logs.back()->empty())
            {
                // a log always has one stream of its own
                logs.back()->emplace_back(makeKind(0, 100 + l));
                logs.back()->back()->init(lg);
                logs.back()->back()->write(lg, c.rng, t0 + 1);
            }
            if (l > 0) lg.amends(dirs.back());
            dirs.push_back(root + "/" + lg.logId());
            lg.close(t1);
        }
        c.note(d);
        std::map<int, AnyStream*> eff;
        size_t shadowed = 0;
        for (auto& lg : logs)
            for (auto& s : *lg)
            {
                if (eff.count(s->key)) ++shadowed;
                eff[s->key] = s.get();
            }
        LogReader lr(c.rng.chance(0.5) ? dirs.back()
                                       : c.scratch + vh::strf("/l%d", depth - 1));
        c.expect(lr.startTime() == lo, "amend_start", "start is not the earliest of all layers");
        c.expect(lr.endTime() == hi, "amend_end", "end is not the latest of all layers");
        std::map<int, size_t> at;
        UTCTime last(0, 0);
        for (auto& kv : eff)
        {
            const int k = kv.first;
            AnyStream* s = kv.second;
            lr.setCallback(k, [&, k, s](const UTCTime& t, int key, StreamReader& rd) {
                const size_t j = at[k]++;
                if (j >= s->stamps.size())
                {
                    c.violate("amend_extra", "more records than the newest layer has");
                    throw std::runtime_error("x");
                }
                c.expect(key == k && t == s->stamps[j], "amend_stamp",
                         "stamp is not the newest layer's");
                c.expect(t >= last, "amend_order", "time went backwards");
                last = t;
                c.expect(s->readAndCompare(rd, j).empty(), "amend_content",
                         "content is not the newest layer's");
            });
        }
        try
        {
            lr.read();
        }
        catch (std::runtime_error&)
        {
        }
        for (auto& kv : eff)
            c.expect(at[kv.first] == kv.second->stamps.size(), "amend_count",
                     vh::strf("key %d: %zu of %zu", kv.first, at[kv.first],
                              kv.second->stamps.size()));
        if (depth > 1 && shadowed) c.nontrivial(d);
        c.count("shadowed_streams", shadowed);
        if (i < 2) c.sample(d);
        for (auto& x : dirs) fs::remove_all(x);
    }
}

// the data file is cut at every byte position: complete records survive, reading ends
VH_GROUP(truncation)
{
    const int N = c.n(2, 12);
    for (int k = 0; k < N_KINDS; ++k)
        for (int rep = 0; rep < N; ++rep)
        {
            std::string dir;
            vh::Rng r(c.seed * 7919 + k * 100 + rep);
            std::unique_ptr<AnyStream> s(makeKind(k, 40 + k)), o(makeKind(10, 5));
            {
                Logger lg(UTCTime(1500000000 + k * 100 + rep, 0), c.scratch);
                s->init(lg);
                o->init(lg);
                UTCTime t(1500000100, 0);
                for (int j = 0; j < 4; ++j)
                {
                    t += 0.25;
                    s->write(lg, r, t);
                    t += 0.25;
                    o->write(lg, r, t);
                }
                dir = c.scratch + "/" + lg.logId();
            }
            const std::string data = dir + vh::strf("/LOG_KEY_%04d.log", 40 + k);
            if (!fs::exists(data))
            {
                c.begin(data);
                c.violate("data_file_missing", data);
                continue;
            }
            const size_t full = fs::file_size(data), per = full / 4;
            const size_t stride = per > 120 && !c.thorough() ? 7 : 1;
            for (size_t cut = full; cut + stride > stride; cut -= std::min(cut, stride))
            {
                if (!c.begin(s->type + vh::strf(" cut at %zu of %zu", cut, full))) continue;
                fs::resize_file(data, cut);
                const size_t whole = cut / per;
                LogReader lr(dir);
                size_t a = 0, b = 0;
                lr.setCallback(s->key, [&](const UTCTime& t, int, StreamReader& rd) {
                    const size_t j = a++;
                    if (a > 20) throw std::runtime_error("endless");
                    const std::string d = s->readAndCompare(rd, j);
                    if (j < whole)
                    {
                        c.expect(t == s->stamps[j] && d.empty(), "cut_content",
                                 vh::strf("complete record %zu damaged: ", j) + d);
                    }
                });
                lr.setCallback(o->key, [&](const UTCTime& t, int, StreamReader& rd) {
                    const size_t j = b++;
                    if (b > 20) throw std::runtime_error("endless");
                    c.expect(j < 4 && t == o->stamps[j] && o->readAndCompare(rd, j).empty(),
                             "cut_other_stream", "the undamaged stream was affected");
                });
                try
                {
                    lr.read();
                }
                catch (std::runtime_error&)
                {
                    c.violate("cut_endless", "reading does not end");
                }
                c.expect(a >= whole && a <= whole + 1, "cut_count",
                         vh::strf("%zu records delivered, %zu are complete", a, whole));
                c.expect(b == 4, "cut_other_count", "records of the undamaged stream lost");
                c.nontrivial(s->type + vh::strf("%zu", cut));
                if (cut == full && rep == 0 && k < 3)
                    c.sample(s->type + vh::strf(": 4 records of %zu bytes", per));
                if (cut == 0) break;
            }
            fs::remove_all(dir);
        }
}
