#include "../cmd/h/host.c"
