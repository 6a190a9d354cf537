// POSIX models (file system faults) live here.
extern "C" int vp_posix_models_linked = 1;
