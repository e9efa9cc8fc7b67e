#include "score/filesystem/filesystem_struct.h"
