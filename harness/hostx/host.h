#include "../cmd/h/host.h"
