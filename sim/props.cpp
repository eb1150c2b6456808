#include "props.h"
const std::vector<Prop> &props() {
    static std::vector<Prop> v;
    if (v.empty()) { props_screen(v); props_view(v); props_vte(v); props_robust(v); props_pty(v); props_tables(v); props_api(v); props_session(v); props_util(v); if (props_gtk) props_gtk(v); }
    return v;
}
