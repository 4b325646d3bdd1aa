// C09: sparse containers against std::map over random histories.
#include "lib.hpp"
static std::string log_;
static uint32_t key() { return I(4) ? I(6) : I(2) ? 0xFFFFFFFFu - I(3) : I(100000); }
template<class F> static bool rejects(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
typedef SparseCounter<uint32_t, int> SC;
static void same(const SC & c, const std::map<uint32_t, int> & o, const std::string & what) {
    std::map<uint32_t, int> got; bool zero = false, dup = false; int tot = 0;
    for (auto & i : c) { zero |= i.second == 0; dup |= !got.insert(std::make_pair(i.first, i.second)).second; }
    for (auto & i : o) tot += i.second;
    if (zero) fail(what + ": a key is listed with count zero");
    if (dup || got != o) fail(what + ": wrong keys or counts");
    check_eq(what + ": total", c.get_total(), tot);
    for (int j = 0; j < 8; ++j) { auto k = key(); auto i = o.find(k); check_eq(what + ": get_count(" + std::to_string(k) + ")", c.get_count(k), i == o.end() ? 0 : i->second); }
}
static void put(std::map<uint32_t, int> & o, uint32_t k, int n) { if ((o[k] += n) == 0) o.erase(k); }
void counters() {
    log_.clear();
    static char raw[sizeof(SC)]; for (auto & x : raw) x = 0x5a;
    SC * p[2] = {new (raw) SC, new SC}; std::map<uint32_t, int> o[2];
    struct Kill { SC ** p; ~Kill() { p[0]->~SC(); delete p[1]; } } kill{p};
    begin("counter new"); same(*p[0], o[0], "new");
    for (int t = 0, T = 3 + I(40); t < T; ++t) {
        int w = I(2), op = I(12); auto k = key(); int n = I(3) ? I(7) - 3 : I(2000) - 1000;
        Case c; c << w << (op < 4 ? " add " : op < 7 ? " remove " : op == 7 ? " init " : op == 8 ? " merge " : op == 9 ? " rename " : op == 10 ? " add1 " : " clear ");
        if (op < 4) c << k << "*" << n; else if (op < 8) c << k << "*" << n;
        log_ += c.str() + ";"; begin("counters: " + log_);
        if (op < 4) { put(o[w], k, n); check_eq("add returns the new count", p[w]->add(k, n), o[w].count(k) ? o[w][k] : 0); }
        else if (op < 7) { put(o[w], k, -1); check_eq("remove returns the new count", p[w]->remove(k), o[w].count(k) ? o[w][k] : 0); }
        else if (op == 7) {
            bool bad = n && o[w].count(k);
            check_true("init_count rejects exactly listed keys", rejects([&] { p[w]->init_count(k, n); }) == bad);
            if (!bad) put(o[w], k, n);
        } else if (op == 8) { p[w]->merge(*p[1 - w]); for (auto & i : o[1 - w]) put(o[w], i.first, i.second); same(*p[1 - w], o[1 - w], "merge source"); }
        else if (op == 9) {
            auto k2 = key(); bool bad = o[w].count(k) && k != k2 && o[w].count(k2);
            check_true("rename rejects exactly listed keys", rejects([&] { p[w]->rename(k, k2); }) == bad);
            if (!bad && o[w].count(k)) { int v = o[w][k]; o[w].erase(k); o[w][k2] = v; }
        } else if (op == 10) { put(o[w], k, 1); check_eq("add by default adds one", p[w]->add(k), o[w].count(k) ? o[w][k] : 0); }
        else if (I(3) == 0) { p[w]->clear(); o[w].clear(); }
        same(*p[w], o[w], "history");
        if (fails >= 20) return;
    }
}
void maps() {
    Sparse_<uint32_t, float> s; std::map<uint32_t, float> o; log_.clear();
    for (int t = 0, T = 3 + I(40); t < T; ++t) {
        int op = I(9); auto k = key(); float x = N(); bool has = o.count(k);
        static const char * nm[] = {"add", "add(k)", "remove", "pop", "set", "get", "get_or_add", "clear", "erase"};
        log_ += std::string(nm[op]) + " " + std::to_string(k) + ";"; begin("map: " + log_);
        if (op == 0) { check_true("add rejects duplicates", rejects([&] { s.add(k, x); }) == has); if (!has) o[k] = x; }
        else if (op == 1) { check_true("add(key) rejects duplicates", rejects([&] { check_eq("added value", s.add(k), 0); s.get(k) = x; }) == has); if (!has) o[k] = x; }
        else if (op == 2) { check_true("remove rejects missing keys", rejects([&] { s.remove(k); }) != has); o.erase(k); }
        else if (op == 3) { check_true("pop rejects missing keys", rejects([&] { check_eq("popped value", s.pop(k), o.count(k) ? o[k] : 0); }) != has); o.erase(k); }
        else if (op == 4) { check_true("set rejects missing keys", rejects([&] { s.set(k, x); }) != has); if (has) o[k] = x; }
        else if (op == 5) { const auto & c = s; check_true("get rejects missing keys", rejects([&] { check_eq("get", c.get(k), o.count(k) ? o[k] : 0); s.get(k) = x; }) != has); if (has) o[k] = x; }
        else if (op == 6) { auto & r = s.get_or_add(k); check_eq("get_or_add", r, has ? o[k] : 0); r = x; o[k] = x; }
        else if (op == 7) { if (I(3) == 0) { s.clear(); o.clear(); } }
        else if (has) { for (auto i = s.begin(); i != s.end(); ++i) if (i->first == k) { s.unsafe_erase(i); break; } o.erase(k); }
        std::map<uint32_t, float> got; for (auto & i : s) got.insert(std::make_pair(i.first, i.second));
        if (got != o || s.size() != o.size()) fail("wrong contents");
        for (int j = 0; j < 6; ++j) { auto q = key(); check_true("contains", s.contains(q) == (o.count(q) > 0)); }
        if (fails >= 20) return;
    }
}
void run() { for (int k = 0; k < 300 || (k < 1000000 && go_on()); ++k) { if (fails >= 20) break; guarded(counters); guarded(maps); } }
int main(int c, char ** v) { return dyn_main(c, v, run); }
