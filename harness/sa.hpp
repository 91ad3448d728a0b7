// Primitives the analyser (tools/zoneai.cpp) gives a meaning to.  They have no definition:
// a program that uses them cannot be linked, let alone run.
#ifndef SA_HPP_
#define SA_HPP_
#include <string_view>
extern "C"
{
    const char* sa_begin() noexcept;           // first byte of an arbitrary input
    const char* sa_end() noexcept;             // one past its last byte
    const char* sa_ptr() noexcept;             // any position
    long        sa_long() noexcept;            // any number
    unsigned    sa_uint() noexcept;            // any number
    bool        sa_bool() noexcept;            // both values
    const char* sa_const(int k) noexcept;      // the k-th unknown constant, the same at every call
    const char* sa_pivot() noexcept;           // one more such constant; the byte it points to is tracked
    void        sa_assume(bool) noexcept;      // drop the states that do not satisfy it
    void        sa_check(const char*, bool) noexcept; // obligation
    void        sa_reach(const char*) noexcept;       // must be reachable (anti-vacuity)
    void        sa_bytes(const char*, int) noexcept;  // report the byte sets at this point
    void        sa_value(const char*, long) noexcept; // report the interval of a value
}
#endif
