// Scheduling points do nothing in the race detector build.
#include <pthread.h>
extern "C" {
void vf_point(int)
{
}
unsigned vf_pick(unsigned)
{
    return 0;
}
unsigned long vf_self()
{
    return static_cast<unsigned long>(pthread_self());
}
}
