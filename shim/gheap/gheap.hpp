// Stand-in for the gheap submodule.
#ifndef VERIF_GHEAP_H
#define VERIF_GHEAP_H
#include <cstddef>
template <size_t Fanout, size_t PageChunks> struct gheap {};
#endif
