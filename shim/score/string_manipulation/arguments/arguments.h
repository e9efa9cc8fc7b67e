#ifndef VERIF_SHIM_ARGS_H
#define VERIF_SHIM_ARGS_H
#endif
