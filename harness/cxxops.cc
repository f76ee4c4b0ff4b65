// every replaced form of new and delete, for the harness in C
#include <cstddef>
#include <new>
#include <exception>
struct derived_alloc : std::bad_alloc { const char *what() const noexcept override { return "derived"; } };
extern "C" {
void *cx_new(int form, size_t n, size_t al, int *exc) {
    *exc = 0;
    std::align_val_t a = static_cast<std::align_val_t>(al);
    try {
        switch (form) {
        case 0: return ::operator new(n);
        case 1: return ::operator new[](n);
        case 2: return ::operator new(n, std::nothrow);
        case 3: return ::operator new[](n, std::nothrow);
        case 4: return ::operator new(n, a);
        case 5: return ::operator new[](n, a);
        case 6: return ::operator new(n, a, std::nothrow);
        case 7: return ::operator new[](n, a, std::nothrow);
        }
    } catch (const std::bad_alloc &) { *exc = 1; } catch (...) { *exc = 2; }
    return nullptr;
}
void cx_delete(int form, void *p, size_t n, size_t al) {
    std::align_val_t a = static_cast<std::align_val_t>(al);
    switch (form) {
    case 0: ::operator delete(p); break;
    case 1: ::operator delete[](p); break;
    case 2: ::operator delete(p, std::nothrow); break;
    case 3: ::operator delete[](p, std::nothrow); break;
    case 4: ::operator delete(p, n); break;
    case 5: ::operator delete[](p, n); break;
    case 6: ::operator delete(p, a); break;
    case 7: ::operator delete[](p, a); break;
    case 8: ::operator delete(p, a, std::nothrow); break;
    case 9: ::operator delete[](p, a, std::nothrow); break;
    case 10: ::operator delete(p, n, a); break;
    case 11: ::operator delete[](p, n, a); break;
    }
}
void cx_set_handler(void (*h)(void)) { std::set_new_handler(h); }
void (*cx_get_handler(void))(void) { return std::get_new_handler(); }
void cx_throw(int derived) { if (derived) throw derived_alloc(); throw std::bad_alloc(); }
}
