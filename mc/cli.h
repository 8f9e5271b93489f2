// Runs the real spiff main() in this process, capturing what it prints.
#pragma once
#include "tkinds.h"
#include <map>
#include <setjmp.h>
#include <sys/mman.h>
int spiff_main(int argc, char **argv);
extern string spiff_exe; // argv[0], which spiff runs again for braces
struct Out { int rc; string out, err; };
extern "C" { extern jmp_buf *spiff_exit_jmp; extern int spiff_exit_code; void __sanitizer_set_report_fd(void *) __attribute__((weak)); }
Out spiff(const std::vector<string> &args, const string &in = "");
