/* C17 character predicates: every char value. */
#include "zv.h"
void ctx_all(void) {
    int c = ZV_PICK(-128, 127); char ch = c;
    int lo = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z', dg = c >= '0' && c <= '9', hx = dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    zv_check(!!zpl_char_is_alpha(ch) == (lo || up));
    zv_check(!!zpl_char_is_digit(ch) == dg);
    zv_check(!!zpl_char_is_alphanumeric(ch) == (lo || up || dg));
    zv_check(!!zpl_char_is_hex_digit(ch) == hx);
    zv_check(!!zpl_char_is_space(ch) == (c == ' ' || (c >= 9 && c <= 13)));
    zv_check(zpl_char_to_lower(ch) == (up ? c + 32 : c));
    zv_check(zpl_char_to_upper(ch) == (lo ? c - 32 : c));
    zv_check(!!zpl_char_is_control(ch) == (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't'));
    zv_end();
}
void ctx_strings(void) {
    int c = ZV_PICK(-128, 127); char s[2] = { 0, 0 }; s[0] = c;
    if (c == 0) { zv_end(); return; }
    zpl_str_to_lower(s); zv_check(s[0] == (c >= 'A' && c <= 'Z' ? c + 32 : c) && s[1] == 0);
    s[0] = c; zpl_str_to_upper(s); zv_check(s[0] == (c >= 'a' && c <= 'z' ? c - 32 : c) && s[1] == 0);
    zv_end();
}
