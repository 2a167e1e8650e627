#pragma once
#include <cstddef>
namespace vxrt {
extern int access_result[8]; extern int access_mode[8]; extern char access_path[8][16]; extern int n_access;
extern const char* in_text; extern size_t in_len, in_pos; extern int term_raw; extern int n_eof_reads;
extern int (*in_hook)();   // every byte of the standard input, when set
extern int term_cols;      // columns of the terminal, negative: not a terminal
extern void (*sig_disp[65])(int); extern int n_sig_calls;
}
