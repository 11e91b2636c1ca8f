// C04: what is logged is what is read: exactly once, bit exact, merged in time order.
#include "log_common.h"

typedef std::vector<std::unique_ptr<AnyStream>> Streams;

static int pickKey(vh::Rng& r, std::set<int>& used)
{
    for (;;)
    {
        int k = 0;
        switch (r.range(0, 3))
        {
        case 0: k = (int)r.range(0, 11); break;
        case 1: k = (int)r.range(12, 99); break;
        case 2: k = (int)r.range(1, 12) * (int)std::pow(10, (double)r.range(1, 5)); break;
        default: k = (int)r.range(100, 999999); break;
        }
        if (used.insert(k).second) return k;
    }
}

// writes a random log; returns its directory
static std::string writeLog(vh::Ctx& c, Streams& st, UTCTime& t0, UTCTime& t1, bool monotone,
                            int maxrec, size_t& total)
{
    const int64_t base = c.rng.range(1000000000, 1900000000);
    t0 = UTCTime(base, c.rng.range(0, 999999999));
    Logger lg(t0, c.scratch);
    std::set<int> used;
    const int ns = (int)c.rng.range(1, 6);
    for (int i = 0; i < ns; ++i)
    {
        st.emplace_back(makeKind((int)c.rng.range(0, N_KINDS - 1), pickKey(c.rng, used)));
        st.back()->init(lg);
    }
    int64_t ns_t = (int64_t)c.rng.range(0, 1000000000);
    const int n = (int)c.rng.range(0, maxrec);
    const int stepkind = (int)c.rng.range(0, 3);
    for (int i = 0; i < n; ++i)
    {
        switch (stepkind)
        {
        case 0: ns_t += c.rng.range(0, 2) * 1000000; break;
        case 1: ns_t += c.rng.range(0, 400000000); break;
        case 3: ns_t += c.rng.range(0, 60000); break;
        default: ns_t += c.rng.range(0, 1) * 999999999; break;
        }
        int64_t w = ns_t;
        if (!monotone) w += c.rng.range(-500000000, 500000000);
        auto& s = *st[c.rng.range(0, ns - 1)];
        s.write(lg, c.rng, UTCTime(base + 5, 0) + UTCTime(0, w));
        ++total;
    }
    t1 = UTCTime(base + 5000, c.rng.range(0, 999999999));
    const std::string dir = c.scratch + "/" + lg.logId();
    lg.close(t1);
    return dir;
}

static void readBack(vh::Ctx& c, const std::string& dir, Streams& st, const UTCTime& t0,
                     const UTCTime& t1, size_t total)
{
    std::string order;
    LogReader lr(dir);
    c.expect(lr.startTime() == t0, "start_time", "start time differs from the one given");
    c.expect(lr.endTime() == t1, "end_time", "end time differs from the one given to close()");
    std::map<int, size_t> at;
    std::map<int, AnyStream*> by;
    std::set<int> subscribed;
    for (auto& s : st)
    {
        by[s->key] = s.get();
        if (c.rng.chance(0.85)) subscribed.insert(s->key);
    }
    size_t called = 0, want = 0;
    for (int k : subscribed)
    {
        want += by[k]->stamps.size();
        lr.setCallback(k, [&, k](const UTCTime& t, int key, StreamReader& rd) {
            ++called;
            c.expect(key == k, "wrong_key", vh::strf("callback of %d called with %d", k, key));
            AnyStream& s = *by[k];
            const size_t i = at[k]++;
            if (i >= s.stamps.size())
            {
                c.violate("extra_record", s.type);
                throw std::runtime_error("too many records");
            }
            c.expect(t == s.stamps[i], "stamp", s.type + vh::strf(" record %zu", i));
            // the delivered record is the earliest one any subscribed stream has pending
            for (int o : subscribed)
            {
                const size_t j = at[o] - (o == k ? 1 : 0);
                if (j < by[o]->stamps.size() && by[o]->stamps[j] < t)
                    c.violate("order", vh::strf("record of %d delivered before an earlier one of %d",
                                                k, o));
            }
            const std::string d = s.readAndCompare(rd, i);
            c.expect(d.empty(), "content_" + s.type, d + vh::strf(" in record %zu", i));
        });
    }
    try
    {
        lr.read();
    }
    catch (std::runtime_error&)
    {
    }
    for (int k : subscribed)
        c.expect(at[k] == by[k]->stamps.size(), "count_" + by[k]->type,
                 vh::strf("%zu of %zu records delivered", at[k], by[k]->stamps.size()));
    c.expect(called == want, "total", vh::strf("%zu calls for %zu records", called, want));
    c.count("records", total);
    c.count("delivered", called);
}

static void roundtrip(vh::Ctx& c, bool monotone, int cases)
{
    for (int i = 0; i < cases; ++i)
    {
        if (!c.begin()) continue;
        Streams st;
        UTCTime t0, t1;
        size_t total = 0;
        const std::string dir =
            writeLog(c, st, t0, t1, monotone, i % 10 == 9 ? 1500 : 60, total);
        std::string d;
        for (auto& s : st) d += s->type + vh::strf("[%d]x%zu ", s->key, s->stamps.size());
        c.note(d);
        readBack(c, dir, st, t0, t1, total);
        if (total > 1 && st.size() > 1) c.nontrivial(d);
        if (i < 2) c.sample(d);
        fs::remove_all(dir);
    }
}
VH_GROUP(merge_sorted) { roundtrip(c, true, c.n(160, 5000)); }
VH_GROUP(merge_unsorted) { roundtrip(c, false, c.n(120, 4000)); }

// every record kind, one stream, sequential access interface
VH_GROUP(sequential)
{
    const int N = c.n(8, 200);
    for (int k = 0; k < N_KINDS; ++k)
        for (int i = 0; i < N; ++i)
        {
            if (!c.begin()) continue;
            std::unique_ptr<AnyStream> s(makeKind(k, (int)c.rng.range(0, 5000)));
            std::string dir;
            {
                Logger lg(UTCTime(c.rng.range(1000000000, 1900000000), 0), c.scratch);
                s->init(lg);
                const int n = (int)c.rng.range(1, 20);
                for (int j = 0; j < n; ++j) s->write(lg, c.rng, rt(c.rng));
                dir = c.scratch + "/" + lg.logId();
            }
            c.note(s->type);
            LogReader lr(dir);
            for (size_t j = 0; j < s->stamps.size(); ++j)
            {
                UTCTime t;
                const std::string d = s->next(lr, j, t);
                c.expect(d.empty(), "content_" + s->type, d);
                c.expect(t == s->stamps[j], "stamp", s->type);
            }
            c.nontrivial(s->type + vh::strf("%zu %lld", s->stamps.size(),
                                            (long long)s->stamps[0].nsec));
            if (i == 0 && k < 4) c.sample(s->type + vh::strf(" x%zu", s->stamps.size()));
            fs::remove_all(dir);
        }
}

// periodic maintenance calls: not before they are due, at most one per record, an error stops
VH_GROUP(maintenance)
{
    const int N = c.n(120, 4000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int64_t base = c.rng.range(1000000000, 1900000000);
        const UTCTime t0(base, 0);
        const double period = c.rng.range(1, 40) * 0.05 + 0.0033;
        std::vector<double> ts;
        std::string dir;
        std::unique_ptr<AnyStream> a(makeKind(0, 0)), b(makeKind(1, 1));
        {
            Logger lg(t0, c.scratch);
            a->init(lg);
            b->init(lg);
            double t = 0;
            const int n = (int)c.rng.range(5, 80);
            for (int j = 0; j < n; ++j)
            {
                t += c.rng.range(1, 60) * 0.01 + 0.001;
                (c.rng.chance(0.5) ? *a : *b).write(lg, c.rng, t0 + t);
                ts.push_back(t);
            }
            dir = c.scratch + "/" + lg.logId();
        }
        const int stop_after = c.rng.chance(0.4) ? (int)c.rng.range(1, 5) : -1;
        c.note(vh::strf("period=%.4f records=%zu stop=%d", period, ts.size(), stop_after));
        // model
        std::vector<int> due;  // index of the record before which a call is due
        double next = 0;
        bool ambiguous = false;
        for (size_t j = 0; j < ts.size(); ++j)
        {
            if (std::abs(ts[j] - next) < 1.2e-4) ambiguous = true;
            if (ts[j] >= next)
            {
                due.push_back((int)j);
                next += period;
            }
        }
        if (ambiguous)
        {
            fs::remove_all(dir);
            continue;
        }
        LogReader lr(dir);
        size_t rec = 0, ia = 0, ib = 0;
        std::vector<int> calls;
        bool stopped = false;
        lr.setMaintenanceCallback(period, [&](const UTCTime& t) -> Error {
            calls.push_back((int)rec);
            c.expect(rec < ts.size() && std::abs((t - t0).toSec() - ts[rec]) < 1e-6,
                     "maintenance_time", "called with a time that is not the pending record's");
            if ((int)calls.size() == stop_after)
            {
                stopped = true;
                return Error::create("stop");
            }
            return Error::none();
        });
        lr.setCallback(0, [&](const UTCTime&, int, StreamReader& rd) {
            c.expect(!stopped, "call_after_stop", "record delivered after an error");
            c.expect(a->readAndCompare(rd, ia++).empty(), "content", "imu");
            ++rec;
        });
        lr.setCallback(1, [&](const UTCTime&, int, StreamReader& rd) {
            c.expect(!stopped, "call_after_stop", "record delivered after an error");
            c.expect(b->readAndCompare(rd, ib++).empty(), "content", "obs");
            ++rec;
        });
        lr.read();
        std::vector<int> want = due;
        if (stop_after > 0 && (int)want.size() > stop_after) want.resize(stop_after);
        c.expect(calls == want, "maintenance_schedule",
                 vh::strf("%zu calls instead of %zu", calls.size(), want.size()));
        if (!stopped) c.expect(rec == ts.size(), "maintenance_records", "records missing");
        if (stopped)
            c.expect((int)rec == want.back(), "stop_position", "did not stop before the record");
        c.count("maintenance_calls", calls.size());
        c.nontrivial(vh::strf("%f %zu %d", period, ts.size(), stop_after));
        if (i < 2) c.sample(vh::strf("period=%.4f records=%zu calls=%zu", period, ts.size(),
                                     calls.size()));
        fs::remove_all(dir);
    }
}

// A directory of logs stands for the one that started last, whatever else is in it and whichever was
// written last.
VH_GROUP(latest)
{
    const int N = c.n(40, 1200);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const std::string root = c.scratch + "/logs";
        fs::create_directories(root);
        std::set<int64_t> starts;
        const int n = (int)c.rng.range(1, 6);
        while ((int)starts.size() < n)
            starts.insert(c.rng.chance(0.5) && starts.size() ? *starts.begin() + c.rng.range(-400, 400) * c.rng.pick<int>({1, 60, 3600, 86400 * 31})
                                                             : c.rng.range(1000000000, 1900000000));
        std::vector<int64_t> todo(starts.begin(), starts.end());
        for (size_t k = todo.size(); k > 1; --k) std::swap(todo[k - 1], todo[c.rng.range(0, (int)k - 1)]);
        std::string what;
        for (int64_t s : todo)
        {
            std::unique_ptr<AnyStream> a(makeKind(0, 0));
            Logger lg(UTCTime(s, c.rng.range(0, 999999999)), root);
            a->init(lg);
            a->write(lg, c.rng, UTCTime(s, 0) + 1.0);
            what += lg.logId() + " ";
            lg.close(UTCTime(s + 10, 0));
        }
        if (c.rng.chance(0.3)) fs::create_directories(root + "/20991231");
        if (c.rng.chance(0.3)) fs::create_directories(root + "/notes_20991231_235959");
        if (c.rng.chance(0.3)) std::ofstream(root + "/zzz.txt") << "x";
        // an archived copy of a log is no log
        if (c.rng.chance(0.3)) std::ofstream(root + "/20991231_235959.zip") << "x";
        if (c.rng.chance(0.3)) fs::create_directories(root + "/20991231_235959.bak");
        // the directory of logs, or the log itself, however the path is spelled
        std::string path = root, last;
        if (c.rng.chance(0.4))
        {
            for (auto& e : fs::directory_iterator(root))
            {
                const std::string f = e.path().filename().string();
                if (f.size() == 15 && f[8] == '_' && f < "2099" && f > last) last = f;
            }
            path += "/" + last;
        }
        path += c.rng.pick<const char*>({"", "", "/", "//", "/."});
        c.note(what + "opened as " + path.substr(root.size()));
        LogReader lr(path);
        c.expect(lr.startTime().sec == *starts.rbegin(), "latest",
                 vh::strf("opened the log of %lld, the latest is of %lld", (long long)lr.startTime().sec, (long long)*starts.rbegin()));
        int got = 0;
        lr.setCallback(0, [&](const UTCTime& t, int, StreamReader& rd) {
            meas::ImuSample s;
            rd.get(s);
            ++got;
            c.expect(t.sec == *starts.rbegin() + 1, "latest_content", "a record of another log");
        });
        lr.read();
        c.expect(got == 1, "latest_count", vh::strf("%d records", got));
        c.nontrivial(what);
        if (i < 1) c.sample(what);
        fs::remove_all(root);
    }
}

// One logger may write log after log. Each holds what was logged while it was open, and nothing
// else; a log opened again under the name of an earlier one replaces it.
VH_GROUP(reuse)
{
    const int N = c.n(40, 1200);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const std::string root = c.scratch + "/logs";
        const int n = (int)c.rng.range(2, 4);
        const int64_t base = c.rng.range(1000000000, 1900000000);
        std::map<std::string, std::vector<std::unique_ptr<AnyStream>>> logs;
        std::map<std::string, UTCTime> ends;
        std::string what;
        {
            std::unique_ptr<Logger> lg;
            for (int l = 0; l < n; ++l)
            {
                const UTCTime t0(base + c.rng.range(0, 3), 0);
                if (!lg)
                    lg.reset(new Logger(t0, root));
                else
                    lg->open(t0, root);
                std::vector<std::unique_ptr<AnyStream>> streams;
                const int k = (int)c.rng.range(1, 4);
                std::set<int> keys;
                while ((int)keys.size() < k) keys.insert((int)c.rng.range(0, 6));
                for (int key : keys)
                {
                    streams.emplace_back(makeKind((int)c.rng.range(0, N_KINDS - 1), key));
                    streams.back()->init(*lg);
                }
                UTCTime t = t0;
                for (int j = (int)c.rng.range(0, 40); j > 0; --j)
                    c.rng.pick(streams)->write(*lg, c.rng, t += c.rng.range(1, 900) * 1e-3);
                const std::string dir = root + "/" + lg->logId();
                what += lg->logId() + vh::strf("(%d streams) ", k);
                ends[dir] = t + 5.0;
                lg->close(t + 5.0);
                // closing twice is closing once
                if (c.rng.chance(0.3)) lg->close(t + 500.0);
                logs[dir] = std::move(streams);
            }
        }
        c.note(what);
        for (auto& l : logs)
        {
            LogReader lr(l.first);
            c.expect(lr.endTime() == ends[l.first], "reuse_end", l.first);
            std::map<int, size_t> at;
            // streams of the other logs must not be there
            for (int key = 0; key <= 6; ++key)
            {
                AnyStream* s = nullptr;
                for (auto& x : l.second)
                    if (x->key == key) s = x.get();
                lr.setCallback(key, [&, key, s](const UTCTime& t, int, StreamReader& rd) {
                    const size_t j = at[key]++;
                    if (!s || j >= s->stamps.size())
                    {
                        c.violate("reuse_extra", vh::strf("a record too many for key %d", key));
                        throw std::runtime_error("x");
                    }
                    c.expect(t == s->stamps[j], "reuse_stamp", vh::strf("record %zu of key %d", j, key));
                    const std::string d = s->readAndCompare(rd, j);
                    c.expect(d.empty(), "reuse_content", d);
                });
            }
            try
            {
                lr.read();
            }
            catch (std::runtime_error&)
            {
            }
            for (auto& x : l.second)
                c.expect(at[x->key] == x->stamps.size(), "reuse_count",
                         vh::strf("key %d: %zu of %zu records", x->key, at[x->key], x->stamps.size()));
            c.count("logs", 1);
        }
        c.nontrivial(what);
        if (i < 2) c.sample(what);
        fs::remove_all(root);
    }
}
