// Explicit-state breadth-first exploration of real container objects.
// A node is a container state reached by a path of operations; it is rebuilt by replaying
// that path on fresh storage, snapshotted, and every enabled operation (and every fault
// schedule of it) is executed from the snapshot.
#pragma once
#include "types.hpp"
#ifdef MC_RACE
#include "race.hpp"
#endif
#include <deque>

namespace mc {

struct Op { u8 k; i16 a, b, c, d; Op(u8 k_ = 0, int a_ = 0, int b_ = 0, int c_ = 0, int d_ = 0) : k(k_), a((i16)a_), b((i16)b_), c((i16)c_), d((i16)d_) {} };

// Two-slot operations have k >= 200: 200..219 construct the other slot from this one, 220.. act on two live containers.
inline bool two_slot(const Op& o) { return o.k >= 200; }
inline bool needs_other(const Op& o) { return o.k >= 220; }

struct Step { Op op; u32 f1 = 0, f2 = 0; int other = -1; u8 side = 0; };
struct Node { int parent; Step st; u64 hash; u16 depth; u8 base; i16 size; u8 nf = 0; u8 done = 0; i32 cap = -1; };  // nf: faulted steps on the path

struct Options {
    int L = 5, R = 7, faults = 1, pairs = 1, Lp = 3, postfault = 1, feedback = 1, mask = ~(4096 | 8192 | 16384 | 32768), D = 1000, extra = 0; int probe = 1; int Lf = -1, cap = 0, F = 2, maxb = 0; // Lf: faults only for states of size <= Lf
    double budget = 0;
    u64 maxstates = 0;
    std::string replay;
};
inline Options opt;

struct Stats { u64 probes = 0, states = 0, trans = 0, fault_runs = 0, pair_trans = 0, replays = 0, outcomes[5] = {}, max_depth = 0, pairs = 0, distinct = 0, fault_states = 0, pair_states = 0, dbl = 0, image_diffs = 0, depth_cut = 0; bool complete = true; };
inline Stats st;

inline double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

template <class D> struct Explorer
{
    std::vector<Node> nodes;
    std::unordered_map<u64, int> seen;
    std::unordered_set<u64> distinct, probed;
    std::vector<std::deque<int>> level = std::vector<std::deque<int>>(16);   // work list, by number of faults on the path
    std::vector<int> order;                                                    // nodes in the order of expansion
    Step cur; int cur_node = -1; bool cur_valid = false;
    std::vector<Step> replay_steps; // when replaying
    double t0 = now_s();
    std::vector<std::string> samples;

    // ---------------- trails
    std::vector<int> path(int n) const { std::vector<int> p; for (; n > 0; n = nodes[n].parent) p.push_back(n); std::reverse(p.begin(), p.end()); return p; }
    static std::string fstr(const Step& s) { std::string r; if (s.f1) r += "  [fault at event " + std::to_string(s.f1) + (s.f2 ? " and " + std::to_string(s.f2) : "") + "]"; return r; }
    std::string desc_node(int n) const
    {
        std::string r; for (int i : path(n)) r += "  " + desc_step(nodes[i].st) + "\n"; return r;
    }
    std::string desc_step(const Step& s) const
    {
        std::string r = D::op_name(s.op) + fstr(s);
        if (s.other >= 0) { r += "  where the other container is: "; for (int i : path(s.other)) r += D::op_name(nodes[i].st.op) + fstr(nodes[i].st) + "; "; }
        if (two_slot(s.op)) r += s.side ? "  (continue with the other container)" : "  (continue with this container)";
        return r;
    }
    static std::string enc1(const Step& s) { char b[160]; snprintf(b, sizeof b, "%d,%d,%d,%d,%d,%u,%u,%d", s.op.k, s.op.a, s.op.b, s.op.c, s.op.d, s.f1, s.f2, s.side); return b; }
    std::string enc_step(const Step& s) const { std::string r = enc1(s); if (s.other >= 0) { r += "{"; for (int i : path(s.other)) r += enc1(nodes[i].st) + ";"; r += "}"; } return r; }
    std::string enc_node(int n) const { std::string r; for (int i : path(n)) r += enc_step(nodes[i].st) + ";"; return r; }

    // ---------------- state construction
    void reset() { init_world(D::objsz, D::objal); D::reset(); }
    void do_step(const Step& s, int sl)
    {
        fp_t1 = s.f1; fp_t2 = s.f2;
        D::apply(sl, s.op);
        fp_t1 = fp_t2 = 0;
        settle();
    }
    void do_step2(const Step& s, int a)
    {
        fp_t1 = s.f1; fp_t2 = s.f2;
        D::apply2(a, 1 - a, s.op);
        fp_t1 = fp_t2 = 0;
        settle();
    }
    void build(int n, int s)
    {
        if (n <= 0) return;
        const Node& nd = nodes[n];
        if (!two_slot(nd.st.op)) {
            build(nd.parent, s);
            if (nd.parent > 0) D::relabel(s);
            do_step(nd.st, s);
        } else {
            int ps = nd.st.side == 0 ? s : 1 - s;
            build(nd.parent, ps);
            if (nd.st.other >= 0) { build(nd.st.other, 1 - ps); D::relabel(1 - ps); }
            D::relabel(ps);
            do_step2(nd.st, ps);
            D::destroy(1 - s); settle();
        }
    }
    void build_checked(int n, int s)
    {
        build(n, s);
        std::string c; D::canon(s, c);
        // The memory image may legitimately differ in bytes without meaning (padding); what is observable may not.
        if (hash_str(c) != nodes[n].hash) {
            ++st.image_diffs;
            if (D::size(s) != nodes[n].size || D::capacity(s) != nodes[n].cap) fail("replaying the same operations gave a different state (behaviour depends on something other than the operation history)");
        }
        ++st.replays;
    }

    // ---------------- transitions
    void finish()  // destroy everything; nothing may remain
    {
        for (int s = 0; s < 2; ++s) if (H.slot_on[s]) { D::destroy(s); }
        settle();
        if (H.live_arena != 0) fail("%d element(s) still alive after the container was destroyed", H.live_arena);
        if (H.na != 0) fail("%u allocation(s) leaked after the container was destroyed", H.na);
    }
    void add(int parent, const Step& s, int slot, std::vector<int>* out)
    {
        if (!H.slot_on[slot]) return;
        std::string c; D::canon(slot, c);
        u64 h = hash_str(c);
        distinct.insert(h * 31 + s.op.k * 7 + (s.f1 ? 1 : 0));
        if (D::size(slot) > opt.L || (opt.cap && D::capacity(slot) > opt.cap)) return;
        int nf = (parent > 0 ? nodes[parent].nf : 0) + (s.f1 ? 1 : 0) + (s.f2 ? 1 : 0);
        if (nf > opt.F) return;
        auto fs = seen.find(h);
        if (fs != seen.end()) {
            Node& q = nodes[fs->second];
            if (!q.done && nf < q.nf) { // cheaper path: fewer faults
                q.cap = D::capacity(slot); q.size = (i16)D::size(slot); q.parent = parent; q.st = s; q.nf = (u8)nf; q.depth = (u16)((parent > 0 ? nodes[parent].depth : 0) + 1);
                q.base = (parent <= 0 || nodes[parent].base) && !two_slot(s.op) && !s.f1;
                level[nf].push_back(fs->second);
            }
            return;
        }
        Node nd; nd.nf = (u8)nf; nd.parent = parent; nd.st = s; nd.hash = h; nd.depth = (u16)((parent > 0 ? nodes[parent].depth : 0) + 1);
        nd.base = (parent <= 0 || nodes[parent].base) && !two_slot(s.op) && !s.f1; nd.size = (i16)D::size(slot); nd.cap = D::capacity(slot);
        if (nd.depth > opt.D) { ++st.depth_cut; return; }  // the depth is one of the stated bounds
        if (opt.maxstates && nodes.size() >= opt.maxstates) { st.complete = false; return; }
        int id = (int)nodes.size();
        seen[h] = id; nodes.push_back(nd); level[nf].push_back(id);
        if (s.f1) ++st.fault_states;
        if (two_slot(s.op)) ++st.pair_states;
        if (nd.depth > st.max_depth) st.max_depth = nd.depth;
        if (out) out->push_back(id);
        if (samples.size() < 6 && (id % 37) == 3) samples.push_back(enc_node(id));
    }

    // A state that is not going to be expanded (beyond the bounds, or behind more faults than the bounds allow) still has
    // to be a working container: a fixed series of operations runs on it, once per such state.
    void probe(int slot)
    {
        if (!H.slot_on[slot]) return;
        std::string c; D::canon(slot, c); u64 h = hash_str(c);
        if (seen.count(h) || !probed.insert(h).second) return;
        static Snap sp; save(sp); ++st.probes;
        probe_run(slot);
        restore(sp);
    }
    static bool probe_run(int slot)
    {
        Op o;
        for (int k = 0; k < D::PROBES; ++k) {
            if (!D::probe_op(slot, k, o)) continue;
            D::relabel(slot); g_probe = k + 1;
            D::apply(slot, o);
            if (g_aborted) { g_aborted = false; break; }
            settle();
            for (int q = 0; q < 2; ++q) if (H.slot_on[q]) D::check(q);
            D::check_global();
        }
        g_probe = 0;
        return true;
    }

    // Runs one step from snapshot `snap`; then all its fault schedules.
    void transition(const Snap& snap, int node, Step s, bool pair, bool faults)
    {
        auto once = [&](u32 f1, u32 f2) {
            restore(snap);
            s.f1 = f1; s.f2 = f2; cur = s; cur_node = node; cur_valid = true; ++g_seq;
            fp_t1 = f1; fp_t2 = f2;
            Outcome o = pair ? D::apply2(0, 1, s.op) : D::apply(0, s.op);
            fp_t1 = fp_t2 = 0;
            if (g_aborted) { g_aborted = false; ++st.outcomes[o]; ++st.trans; return std::make_pair(o, 0u); }
            settle();
#ifdef MC_RACE
            check_lib_statics();
#endif
            for (int k = 0; k < 2; ++k) if (H.slot_on[k]) D::check(k);
            D::check_global();
            ++st.outcomes[o];
            if (!f1) ++(pair ? st.pair_trans : st.trans); else { ++st.fault_runs; if (f2) ++st.dbl; }
            bool want = pair ? opt.feedback : (f1 ? opt.postfault : true);
            u64 ev = fp_count;
            if (want && !pair) { s.side = 0; add(node, s, 0, nullptr); if (opt.probe) probe(0); }
            else if (want) {
                // each side goes on alone: the other container is destroyed first
                static Snap s2; save(s2);
                if (H.slot_on[0]) { D::destroy(0); settle(); }
                s.side = 1; add(node, s, 1, nullptr);
                restore(s2);
                if (H.slot_on[1]) { D::destroy(1); settle(); }
                s.side = 0; add(node, s, 0, nullptr);
                if (opt.probe) { restore(s2); for (int k = 0; k < 2; ++k) probe(k); }
            }
            else distinct.insert(s.op.k * 1000003ull + o);
            finish();
            return std::make_pair(o, (u32)ev);
        };
        auto r = once(0, 0);
        if (!faults || !opt.faults) return;
        u32 nf = r.second;
        if (nf > 400) nf = 400;
        for (u32 k = 1; k <= nf; ++k) {
            auto r2 = once(k, 0);
            if (opt.faults >= 2) for (u32 k2 = k + 1; k2 <= r2.second && k2 < 400; ++k2) once(k, k2);
        }
    }

    void expand(int n)
    {
        reset();
        cur_valid = false; cur_node = n;
        if (n > 0) { build_checked(n, 0); D::relabel(0); }
        Snap snap; save(snap);
        std::vector<Op> ops; D::ops(0, ops);
        bool fl = opt.Lf < 0 || n <= 0 || nodes[n].size <= opt.Lf;
        for (const Op& o : ops) {
            Step s; s.op = o;
            transition(snap, n, s, two_slot(o), fl);
            if (opt.budget > 0 && now_s() - t0 > opt.budget) { st.complete = false; return; }
        }
    }

    void run_pairs(std::size_t& a_done, std::vector<int>& bs)
    {
        std::vector<Op> ops;
        std::size_t na = order.size();
        for (; a_done < na; ++a_done) {
            int i = order[a_done];
            if (i == 0 || nodes[i].size > opt.Lp) continue;
            for (int b : bs) {
                reset(); cur_valid = false;
                build(i, 0); build(b, 1); D::relabel(0); D::relabel(1);
                Snap snap; save(snap);
                ops.clear(); D::ops2(ops);
                ++st.pairs;
                for (const Op& o : ops) { Step s; s.op = o; s.other = b; transition(snap, i, s, true, true); }
                if (opt.budget > 0 && now_s() - t0 > opt.budget) { st.complete = false; return; }
            }
        }
    }

    void explore()
    {
        describe_trail = [this] {
            if (!replay_steps.empty()) return std::string("  (replay)\n");
            std::string r = cur_node > 0 ? desc_node(cur_node) : std::string();
            if (cur_valid) r += "  " + desc_step(cur) + "\n";
            return r;
        };
        encode_trail = [this] { std::string r = cur_node > 0 ? enc_node(cur_node) : std::string(); if (cur_valid) r += enc_step(cur) + ";"; return r; };
        Node root; root.parent = -1; root.hash = 0; root.depth = 0; root.base = 1; root.size = 0;
        nodes.push_back(root); level[0].push_back(0);
        std::size_t adone = 0;
        // Work in the order of the number of faults on the path, so that every state is
        // reached with the smallest possible number of them.  Within a level: single-container
        // operations to a fixpoint, then all pairs, and again until neither adds a state.
        bool out_of_time = false;
        for (int lv = 0; lv <= opt.F && lv < 16 && !out_of_time; ++lv) {
            for (;;) {
                while (!level[lv].empty()) {
                    int n = level[lv].front(); level[lv].pop_front();
                    if (nodes[n].done || nodes[n].nf != lv) continue;
                    nodes[n].done = 1; order.push_back(n);
                    expand(n);
                    if (opt.budget > 0 && now_s() - t0 > opt.budget) { st.complete = false; out_of_time = true; break; }
                }
                if (out_of_time || !opt.pairs || adone >= order.size()) break;
                std::vector<int> bs;
                for (int i : order) if (i > 0 && nodes[i].base && nodes[i].size <= opt.Lp) bs.push_back(i);
                if (opt.maxb && (int)bs.size() > opt.maxb) { std::vector<int> t; for (int i = 0; i < opt.maxb; ++i) t.push_back(bs[(std::size_t)((u64)i * bs.size() / (u64)opt.maxb)]); bs.swap(t); }
                run_pairs(adone, bs);
                if (!st.complete) { out_of_time = true; break; }
            }
        }
        st.states = order.size() - 1; st.distinct = distinct.size();
    }

    // ---------------- replay of an encoded trail
    static bool parse1(const char*& p, Step& s)
    {
        int k, a, b, c, d, side; unsigned f1, f2; int n = 0;
        if (sscanf(p, "%d,%d,%d,%d,%d,%u,%u,%d%n", &k, &a, &b, &c, &d, &f1, &f2, &side, &n) != 8) return false;
        s.op = Op((u8)k, a, b, c, d); s.f1 = f1; s.f2 = f2; s.side = (u8)side; p += n; return true;
    }
    void replay(const std::string& text)
    {
        nodes.clear(); Node root; root.parent = -1; root.hash = 0; root.depth = 0; root.base = 1; root.size = 0; nodes.push_back(root);
        describe_trail = [this] { return cur_node > 0 ? desc_node(cur_node) + (cur_valid ? "  " + desc_step(cur) + "\n" : "") : (cur_valid ? "  " + desc_step(cur) + "\n" : std::string()); };
        encode_trail = [this] { std::string r = cur_node > 0 ? enc_node(cur_node) : std::string(); if (cur_valid) r += enc_step(cur) + ";"; return r; };
        const char* p = text.c_str(); int at = 0;
        while (*p) {
            Step s; if (!parse1(p, s)) break;
            if (*p == '{') {
                ++p; int o = 0;
                while (*p && *p != '}') { Step t; if (!parse1(p, t)) break; if (*p == ';') ++p; Node nd; nd.parent = o; nd.st = t; nd.hash = 0; nd.depth = 0; nd.base = 1; nd.size = 0; nodes.push_back(nd); o = (int)nodes.size() - 1; }
                if (*p == '}') ++p;
                s.other = o;
            }
            if (*p == ';') ++p;
            // run the step exactly as the explorer does
            reset(); cur_valid = false; cur_node = at;
            if (at > 0) { build(at, 0); D::relabel(0); }
            if (s.other >= 0) { build(s.other, 1); D::relabel(1); }
            Snap snap; save(snap); int f = opt.faults; opt.faults = 0; opt.postfault = 0; opt.feedback = 0;
            u32 f1 = s.f1, f2 = s.f2;
            cur = s; cur_valid = true; ++g_seq;
            fp_t1 = f1; fp_t2 = f2;
            if (two_slot(s.op)) D::apply2(0, 1, s.op); else D::apply(0, s.op);
            fp_t1 = fp_t2 = 0; if (g_aborted) return;
            settle();
            for (int k = 0; k < 2; ++k) if (H.slot_on[k]) D::check(k);
            D::check_global();
            { static Snap sp; for (int k = 0; k < 2; ++k) if (H.slot_on[k]) { save(sp); probe_run(k); restore(sp); } }
            finish(); opt.faults = f;
            Node nd; nd.parent = at; nd.st = s; nd.hash = 0; nd.depth = 0; nd.base = 1; nd.size = 0; nodes.push_back(nd); at = (int)nodes.size() - 1;
        }
    }

    static std::string extra_stats()
    {
        std::string k = "\"known\":["; for (auto& x : known_hit) k += std::string(k.back() == '[' ? "\"" : ",\"") + x + "\""; k += "],";
#ifdef MC_RACE
        return k + "\"writes_monitored\":" + std::to_string(n_writes_seen) + ",\"library_static_objects\":" + std::to_string(n_lib_static) + ",";
#else
        return k;
#endif
    }
    void report() const
    {
        printf("STATS {\"driver\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"fault_runs\":%llu,\"double_fault_runs\":%llu,\"pair_transitions\":%llu,\"pairs\":%llu,\"replays\":%llu,\"max_depth\":%llu,\"distinct\":%llu,\"fault_states\":%llu,\"probes\":%llu,\"pair_states\":%llu,\"image_diffs\":%llu,\"assertion_checks\":%llu,%s"
               "\"ok\":%llu,\"faulted\":%llu,\"length_error\":%llu,\"out_of_range\":%llu,\"complete\":%s,\"L\":%d,\"wall\":%.2f,\"samples\":[",
            driver_name.c_str(), (unsigned long long)st.states, (unsigned long long)st.trans, (unsigned long long)st.fault_runs, (unsigned long long)st.dbl, (unsigned long long)st.pair_trans, (unsigned long long)st.pairs, (unsigned long long)st.replays,
            (unsigned long long)st.max_depth, (unsigned long long)st.distinct, (unsigned long long)st.fault_states, (unsigned long long)st.probes, (unsigned long long)st.pair_states, (unsigned long long)st.image_diffs, (unsigned long long)n_must_abort, extra_stats().c_str(),
            (unsigned long long)st.outcomes[0], (unsigned long long)st.outcomes[1], (unsigned long long)st.outcomes[2], (unsigned long long)st.outcomes[3], st.complete ? "true" : "false", opt.L, now_s() - t0);
        for (std::size_t i = 0; i < samples.size(); ++i) printf("%s\"%s\"", i ? "," : "", samples[i].c_str());
        printf("]}\n");
    }
};

template <class D> int mc_main(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--L") opt.L = atoi(v.c_str()); else if (a == "--R") opt.R = atoi(v.c_str()); else if (a == "--faults") opt.faults = atoi(v.c_str());
        else if (a == "--probe") opt.probe = atoi(v.c_str()); else if (a == "--pairs") opt.pairs = atoi(v.c_str()); else if (a == "--Lp") opt.Lp = atoi(v.c_str()); else if (a == "--Lf") opt.Lf = atoi(v.c_str());
        else if (a == "--postfault") opt.postfault = atoi(v.c_str()); else if (a == "--feedback") opt.feedback = atoi(v.c_str()); else if (a == "--mask") opt.mask = (int)strtol(v.c_str(), nullptr, 0);
        else if (a == "--D") opt.D = atoi(v.c_str()); else if (a == "--extra") opt.extra = atoi(v.c_str()); else if (a == "--budget") opt.budget = atof(v.c_str());
        else if (a == "--cap") opt.cap = atoi(v.c_str()); else if (a == "--F") opt.F = atoi(v.c_str()); else if (a == "--maxb") opt.maxb = atoi(v.c_str()); else if (a == "--maxstates") opt.maxstates = strtoull(v.c_str(), nullptr, 0);
        else if (a == "--prop") prop = v; else if (a == "--name") driver_name = v; else if (a == "--cfg") cfg_name = v; else if (a == "--out") out_path = v; else if (a == "--replay") opt.replay = v; else if (a == "--known") known_list = v;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    install_signals();
#ifdef MC_RACE
    find_lib_statics();
#endif
    static Explorer<D> ex;
    if (!opt.replay.empty()) { ex.replay(opt.replay); printf("REPLAY no violation\n"); return 0; }
    ex.explore();
    ex.report();
    return 0;
}

} // namespace mc
