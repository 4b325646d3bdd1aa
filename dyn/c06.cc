// C06: random histories of an id tracker against an explicit list of live ids.
#include "lib.hpp"
void one() {
    MixtureIdTracker t; std::vector<long> live; long next = 0; std::string h;
    std::set<long> dead;
    auto init = [&](int n) { t.init(n); live.clear(); dead.clear(); for (next = 0; next < n; ++next) live.push_back(next); h += " init " + std::to_string(n); };
    begin("tracker");
    if (I(6)) init(I(2) ? 0 : I(8)); else { t.init(); h += " init"; }
    int steps = 1 + I(25);
    for (int k = 0; k <= steps; ++k) {
        if (k) {
            int op = I(30);
            if (op == 0) init(I(5));
            else if (op < 15 || live.empty()) { t.add_group(); live.push_back(next++); h += " add"; }
            else { int i = I(3) ? I(live.size()) : I(2) ? 0 : live.size() - 1; t.remove_group(i); dead.insert(live[i]); live[i] = live.back(); live.pop_back(); h += " remove " + std::to_string(i); }
        }
        current = "tracker" + h;
        check_eq("packed size", t.packed_size(), live.size());
        check_eq("ids handed out", t.global_size(), next);
        if (t.packed_size() != live.size()) return;
        for (size_t i = 0; i < live.size(); ++i) {
            check_eq("global id of packed " + std::to_string(i), t.packed_to_global(i), live[i]);
            check_eq("packed id of global " + std::to_string(live[i]), t.global_to_packed(live[i]), i);
        }
        for (long g : dead) {
            bool threw = false;
            try { t.global_to_packed(g); } catch (const std::exception &) { threw = true; }
            if (!threw) { fail("a removed global id still translates: " + std::to_string(g)); break; }
        }
        if (fails >= 20) return;
    }
}
void run() { for (int k = 0; k < 2000 || (k < 1000000 && go_on()); ++k) { if (fails >= 20) break; guarded(one); } }
int main(int c, char ** v) { return dyn_main(c, v, run); }
