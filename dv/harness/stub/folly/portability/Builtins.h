// Stand-in for an absent dependency: on this platform the real header only provides compiler builtins.
#pragma once
