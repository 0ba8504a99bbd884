#pragma once
#include "model.h"
struct UserCfg { strs keys, vals, args; int depth = 3, jump = 0, reload = 0, restart = 0, term = 0, verify = V_BASIC; bool each = true, final_restart = false; long datasize = 0; };
void user_explore(const UserCfg &g);
struct SeqCfg { strs vals, args; int depth = 3, jump = 0, reload = 0, restart = 0, term = 0, verify = V_BASIC; bool each = true, final_restart = false, bad = true; long datasize = 0; };
void seq_explore(const SeqCfg &g);
