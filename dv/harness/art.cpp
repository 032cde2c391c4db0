// Instantiates the real template of /repo/include/indexes/art/map.h for the verifier.
#include <indexes/art/map.h>
#include <cstddef>
#include <new>
#ifndef DV_ART_TRAITS
#define DV_ART_TRAITS art_traits_default
#endif
using M = indexes::art::map<int, indexes::art::DV_ART_TRAITS>;
template class indexes::art::map<int, indexes::art::DV_ART_TRAITS>;
void dv_ctor(void *p) { new (p) M(); }
void dv_move(void *p, M *o) { new (p) M(std::move(*o)); }
#ifdef DV_LAYOUT
#define OFF(T,f) (long)__builtin_offsetof(T,f)
extern "C" { extern const long dv_layout[]; }
const long dv_layout[] = { OFF(M::node_t,node_type), OFF(M::node_t,keylen), OFF(M::node_t,num_children), OFF(M::node_t,key),
  sizeof(M::leaf_t), sizeof(M::node4_t), sizeof(M::node16_t), sizeof(M::node48_t), sizeof(M::node256_t), OFF(M::leaf_t,value),
  OFF(M::node4_t,keys), OFF(M::node4_t,children), OFF(M::node16_t,keys), OFF(M::node16_t,children),
  OFF(M::node48_t,keys), OFF(M::node48_t,freemap), OFF(M::node48_t,children), OFF(M::node256_t,children),
  OFF(M,root), OFF(M,m_size),
  (long)M::node_type_t::LEAF, (long)M::node_type_t::NODE4, (long)M::node_type_t::NODE16, (long)M::node_type_t::NODE48, (long)M::node_type_t::NODE256 };
#endif
