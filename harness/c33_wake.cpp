// C33: a coroutine without handle is woken by another thread and finishes; its
// memory is not used after its scheduler thread has removed it.
#define MODE 1
#define N 1
#define UNHELD
#include "c19_sleep.cpp"
