// Q02: termination and status of the trust-region SQP solver under every scripted history (see common/sqp_script.hpp).
#include <common/sqp_script.hpp>
const mc::CheckInfo mc::info = { "Q02", "model_checking",
  "every sequence of QP answers (14 qualities of the exact/convexified improvement incl. ties with every threshold, QP failure, callback stop, 4 violation patterns incl. exactly the tolerance), structure changes and refused in-place updates up to the depth of each of about 30 parameter sets, around the real solver; a state is (best point, box, penalties, rounds); a trace is a complete solve compared step by step with the algorithm's rules",
  { "costs and violations are finite numbers", "divergences that belong to the sibling properties Q01-Q03 end an execution without a report here" } };
void mc::explore(mc::Ctx& c) { sqps::exploreAll(c, sqps::Area::Status); }
