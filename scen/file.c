/* F01: the file directives on a file with symbolic contents: sequences of reads, seeks, position and size queries, reopening. */
#include "common.h"
int main() {
  int len = vf_param("length", 3), nops = vf_param("ops", 3), pos = 0, ok = 1, i, r, n = 0, open = 1, want8[32]; unsigned char d[16]; static const char *const M[] = {"start", "end", "current"};
  for (i = 0; i < len; i++) d[i] = vf_u8(msg("b%d", i)); vf_put("f.bin", d, len); tn(); map1(0, 0x40, 1); at(0, 0); t(".fopen \"f.bin\" fp\n");
  for (i = 0; i < nops && ok; i++) switch (vf_choice(msg("op%d", i), 6)) {
    case 0: t(".fread fp x\n.db x\n"); if (!open || pos >= len) ok = 0; else want8[n++] = d[pos++]; break;
    case 1: { int m = vf_choice(msg("mode%d", i), 3), k = vf_choice(msg("by%d", i), 2 * len + 3) - len - 1, np = (m == 0 ? 0 : m == 1 ? len : pos) + k; if (m == 1) t(".fseek fp %d %s\n", k, M[m]); else t(".fseek fp %d+0 %s\n", k, M[m]); if (!open || np < 0) ok = 0; else pos = np; break; }
    case 2: t(".ftell fp y\n.db y\n"); if (!open) ok = 0; else want8[n++] = pos; break;
    case 3: t(".fsize fp s%d\n.db s%d\n", i, i); if (!open) ok = 0; else want8[n++] = len; break;
    case 4: t(".fclose fp\n"); if (!open) ok = 0; open = 0; break;
    case 5: t(".fopen \"f.bin\" fp\n"); open = 1; pos = 0; break; }
  if (ok && open && vf_choice("copy", 2)) { t(".fseek fp 0 start\n.fsize fp tt\n.repeat tt\n.fread fp c\n.db c\n.endr\n.fclose fp\n"); for (i = 0; i < len; i++) want8[n++] = d[i]; }
  t(".db 77\n"); want8[n++] = 77; r = build("wla-z80"); vf_assert(clean(r), "the assembler ends properly"); vf_assert((r == 0) == ok, "operations the file allows are accepted, others refused"); if (r) { vf_reach("refused"); return 0; }
  P = 0; for (i = 0; i < n; i++) want(want8[i], 1, "value"); vf_reach("ok"); return 0;
}
