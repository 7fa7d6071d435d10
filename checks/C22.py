TECHNIQUE = "abstract interpretation (Frama-C Eva) of every operation that acquires a system resource over a system model that may fail at each call and counts what is held, and a must-release typestate dataflow over the compiler's IR for argument lists and thread attributes"
NOTE = "descriptors, directory handles, streams, address lists, sockets, pipes, thread attributes, semaphores, mutexes, argument lists on Linux"
import llir, typestate
WHERE = {"C21": ["ctx_open_modes", "ctx_open_create", "ctx_close", "ctx_temp", "ctx_changed", "ctx_copy", "ctx_copy_each_failure", "ctx_copy_self", "ctx_write_contents"],
         "C24": ["ctx_pack", "ctx_pack_failures", "ctx_pack_dir", "ctx_extract_failures", "ctx_extract_body"],
         "C48": ["ctx_read_contents", "ctx_read_contents_folder", "ctx_read_lines", "ctx_full_name", "ctx_dirlist", "ctx_dirinfo_fail"],
         "C53": ["ctx_command", "ctx_command_str"], "C42": ["ctx_create", "ctx_create_fails"], "C41": ["ctx_life", "ctx_fail", "ctx_unstarted"], "C40": ["ctx_fail"]}
SRC = '#define ZPL_IMPLEMENTATION\n#include "zpl.h"\n'
PAIRS = [(["llvm.va_start", "llvm.va_copy"], ["llvm.va_end"], "argument list"),
         (["pthread_attr_init"], ["pthread_attr_destroy"], "thread attribute object"),
         (["pthread_mutexattr_init"], ["pthread_mutexattr_destroy"], "mutex attribute object"),
         (["regcomp"], ["regfree"], "regular expression"), (["glob"], ["globfree"], "path list")]
def run(c):
    m = llir.compile_ir(SRC)
    n = 0
    for b, e, what in PAIRS:
        for f, where, msg in typestate.check(m, b, e, what):
            if f is None: n += where; c.count("functions_with_paired_objects", msg); c.good(where)
            else: c.finding("%s|%s" % (f, msg), where, "in %s: %s" % (f, msg))
    c.require(n >= 5, "only %d paired objects" % n)
    c.count("paired_object_sites", n)
    c.expl.append("must-release dataflow over the IR: each begun argument list or attribute object is ended exactly once on every path to a return")
    c.ai(min_ctx=4)
    for f, only in WHERE.items(): c.ai(f + ".c", only=only)
