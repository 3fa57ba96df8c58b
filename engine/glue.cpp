#include "cocpp/cocpp.h"
#include "pbt.h"
using namespace cocpp;
void pbt_init_manager(const CaseConfig &c)
{
    co::set_base_schedule_thread_count((size_t)c.base_envs);
    co::set_max_schedule_thread_count((size_t)c.max_envs);
    co::set_timer_tick_duration(std::chrono::milliseconds(c.tick_ms));
}
