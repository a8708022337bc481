// Sanitizer settings: a report aborts, so that the engine sees it.
extern "C" const char* __asan_default_options() {
    return "abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigbus=0:"
           "handle_sigfpe=0:handle_sigill=0:detect_leaks=0:"
           "allocator_may_return_null=0:max_allocation_size_mb=2048";
}
extern "C" const char* __ubsan_default_options() {
    return "abort_on_error=1:print_stacktrace=1:halt_on_error=1";
}
