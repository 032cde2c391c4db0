// Instantiates the real templates of /repo/include/indexes/btree for the verifier.
#include <indexes/btree/map.h>
#include <indexes/btree/key.h>
#include <cstddef>
using namespace indexes::btree;
#ifndef DV_NODE_SIZE
#define DV_NODE_SIZE 192
#define DV_THRESHOLD 80
#define DV_DEBUG true
#endif
struct DVTraits { static constexpr int NODE_SIZE = DV_NODE_SIZE; static constexpr int NODE_MERGE_THRESHOLD = DV_THRESHOLD; static constexpr bool DEBUG = DV_DEBUG; static constexpr bool STAT = false; };
using M = map<int,int,DVTraits>;
template class indexes::btree::map<int,int,DVTraits>;
using L = M::leaf_node_t; using I = M::inner_node_t;
template int L::lower_bound_pos<int>(const int&) const;
template int L::upper_bound_pos<int>(const int&) const;
template int I::upper_bound_pos<int>(const int&) const;
template M::iterator M::lower_bound<int>(const int&);
template M::iterator M::upper_bound<int>(const int&);
template M::const_iterator M::lower_bound<int>(const int&) const;
template M::const_iterator M::upper_bound<int>(const int&) const;
template class M::iterator_impl<M::FORWARD, M, L>;
template class M::iterator_impl<M::REVERSE, M, L>;
template class M::iterator_impl<M::FORWARD, const M, const L>;
template class M::iterator_impl<M::REVERSE, const M, const L>;
#include <new>
M::const_iterator dv_conv(M::iterator i){ return i; }
void dv_ctor(void *p){ new (p) M(); }
#ifdef DV_LAYOUT
#define OFF(T,f) (long)__builtin_offsetof(T,f)
using LKV = L::key_value_t; using IKV = I::key_value_t; using SI = M::NodeSplitInfo<L>; using MI = M::MergeInfo; using OMI = std::optional<MI>; using IT = M::iterator;
extern "C" { extern const long dv_layout[]; }
const long dv_layout[] = {
  DV_NODE_SIZE, sizeof(L), sizeof(I), sizeof(LKV), sizeof(IKV), OFF(LKV,second), OFF(IKV,second), alignof(LKV), alignof(IKV),
  OFF(M::node_t,logical_pagesize), OFF(M::node_t,num_values), OFF(M::node_t,next_slot_offset), OFF(M::node_t,last_value_offset),
  OFF(M::node_t,node_type), OFF(M::node_t,height), OFF(M::node_t,num_dead_values), OFF(M::node_t,lowkey), OFF(M::node_t,highkey),
  OFF(M,m_root), OFF(M,count), OFF(M,m_height), OFF(M,m_stats),
  OFF(SI,left), OFF(SI,right), OFF(SI,split_key), OFF(IT,m_bt), OFF(IT,m_leaf), OFF(IT,m_curslot),
  OFF(MI,merge_key) , OFF(MI,sibilingpos), sizeof(MI),
  (long)M::InsertStatus::OVFLOW, (long)M::InsertStatus::DUPLICATE, (long)M::InsertStatus::INSERTED };
#endif
