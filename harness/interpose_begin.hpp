#define atomic atomic_mon
#define mutex mutex_mon
#define condition_variable condition_variable_mon
#define yield yield_mon
