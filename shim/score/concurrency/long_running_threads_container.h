#include "score/concurrency/executor.h"
