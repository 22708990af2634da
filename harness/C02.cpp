// C02: hash containers destroy each element once and keep memory proportional.
// Non-trivial: the history has a removal and at least 8 additions.
#include "../engine/vp.h"

#include "common/hash_model.h"

template <template <typename> class A>
static void
Go(vp::Src& s, bool big, bool churn = false) {
    hm::Opt o;
    o.big = big;
    o.churn = churn;
    o.lifetimes = true;
    o.memory = true;
    hm::Run<A<tk::Policy>, tk::Policy> r(s, o);
    r.go();
}

VP_TARGET(Table, 60000, 2000000, vp::kLeakCheck) { Go<hm::TableA>(s, false); }
VP_TARGET(Map, 60000, 2000000, vp::kLeakCheck) { Go<hm::MapA>(s, false); }
VP_TARGET(Set, 60000, 2000000, vp::kLeakCheck) { Go<hm::SetA>(s, false); }
VP_TARGET(TableLong, 1500, 40000, vp::kLeakCheck) { Go<hm::TableA>(s, true); }
VP_TARGET(MapLong, 1500, 40000, vp::kLeakCheck) { Go<hm::MapA>(s, true); }
VP_TARGET(SetLong, 1500, 40000, vp::kLeakCheck) { Go<hm::SetA>(s, true); }
VP_TARGET(TableChurn, 2000, 60000, vp::kLeakCheck) { Go<hm::TableA>(s, false, true); }
VP_TARGET(SetChurn, 2000, 60000, vp::kLeakCheck) { Go<hm::SetA>(s, false, true); }
VP_TARGET(TableHuge, 60, 2000, vp::kLeakCheck) { hm::Huge<hm::HugeTable>(s); }
VP_TARGET(MapHuge, 60, 2000, vp::kLeakCheck) { hm::Huge<hm::HugeMap>(s); }
VP_TARGET(SetHuge, 60, 2000, vp::kLeakCheck) { hm::Huge<hm::HugeSet>(s); }
