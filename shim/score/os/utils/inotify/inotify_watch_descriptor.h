#include "score/os/inotify.h"
