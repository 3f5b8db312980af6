#include <mito/simulation.h>
namespace verif {
    using namespace mito;
    auto sm_id() -> int { return simulation::simulation().context().task_id(); }
    auto sm_n() -> int { return simulation::simulation().context().n_tasks(); }
    auto sm_clock() -> double { return simulation::simulation().clock(); }
    auto sm_get() -> simulation::simulation_t & { return simulation::simulation(); }
    auto sm_life() -> int { simulation::context_t c; return c.task_id(); }
}
