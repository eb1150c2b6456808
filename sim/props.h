#pragma once
#include "core.h"
void props_screen(std::vector<Prop> &v);
void props_view(std::vector<Prop> &v);
void props_robust(std::vector<Prop> &v);
void props_vte(std::vector<Prop> &v);
void props_pty(std::vector<Prop> &v);
void props_tables(std::vector<Prop> &v);
void props_api(std::vector<Prop> &v);
void props_session(std::vector<Prop> &v);
void props_util(std::vector<Prop> &v);
void props_gtk(std::vector<Prop> &v) __attribute__((weak)); // only in the simulator of the widget
