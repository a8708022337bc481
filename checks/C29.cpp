// Concurrent tickets through brokers over several shards: atomic and
// serializable under generated schedules.
#include "parsec_sim.hpp"
using namespace sim;

namespace {
    void run_case(Src& s) {
        const auto nsh = s.range(1, 3);
        const auto nbr = s.range(1, 2);
        const auto nkeys = s.range(1, 6);
        const auto nclients = s.range(1, 8);
        cluster c(s, nsh, nbr);
        std::vector<std::shared_ptr<client>> cs;
        s.note("%llu shards, %llu brokers, %llu keys", (unsigned long long)nsh, (unsigned long long)nbr, (unsigned long long)nkeys);
        for(u64 i = 0; i < nclients; i++) {
            cs.push_back(std::make_shared<client>(c, c.m_nodes[s.below(nbr)]));
            cs.back()->draw(nkeys);
        }
        size_t started = 0;
        for(;;) {
            if(started < cs.size() && (s.chance(1, 6) || started == 0)) {
                cs[started++]->start();
            }
            if(!c.sch.step() && started == cs.size()) {
                break;
            }
            PBT_CHECK(c.sch.m_steps < 20000, "tickets make no progress");
        }
        u64 wounds = 0;
        u64 done = 0;
        for(auto& cl : cs) {
            PBT_CHECK(cl->m_done, "ticket %llu waits for ever", (unsigned long long)cl->m_tn.value_or(0));
            wounds += cl->m_wounds;
            done++;
        }
        c.no_tickets();
        c.check_history(nkeys);
        if(wounds > 0) {
            s.label("wounds");
        }
        if(wounds > 0 && nsh > 1 && done > 2) {
            s.nontrivial();
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C29";
    c.m_rule = "1-8 tickets over 1-6 keys, 1-3 shards and 1-2 brokers, every message delivered "
               "in a drawn order (in order per connection), tickets retried when wounded; "
               "non-trivial: more than one shard and a ticket was wounded";
    c.m_assumptions = {"messages between one broker and one shard stay in order",
                       "callers use a ticket as the agent does"};
    c.m_props = {{"schedules", run_case, 400000, 8000000}};
    return pbt::run(argc, argv, c);
}
