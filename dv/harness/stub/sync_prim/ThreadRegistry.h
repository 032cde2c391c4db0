// Stand-in for an absent submodule: art/map.h only needs the name.
#pragma once
namespace sync_prim { class ThreadRegistry; }
