#include "score/callback.hpp"
