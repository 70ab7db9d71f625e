/* Thin C wrappers around every form of operator new and delete */
#include <cstddef>
#include <new>
static int handler_calls, handler_limit;
static void count_handler() { if(++handler_calls >= handler_limit) std::set_new_handler(nullptr); }
extern "C" void *cpp_new(int form, size_t n, size_t a, int *threw) {
    *threw = 0;
    std::align_val_t al{a};
    try {
        switch(form) {
        case 0: return ::operator new(n);
        case 1: return ::operator new[](n);
        case 2: return ::operator new(n, std::nothrow);
        case 3: return ::operator new[](n, std::nothrow);
        case 4: return ::operator new(n, al);
        case 5: return ::operator new[](n, al);
        case 6: return ::operator new(n, al, std::nothrow);
        case 7: return ::operator new[](n, al, std::nothrow);
        }
    } catch(const std::bad_alloc &) { *threw = 1; } catch(...) { *threw = 2; }
    return nullptr;
}
extern "C" void cpp_delete(int form, void *p, size_t n, size_t a) {
    std::align_val_t al{a};
    switch(form) {
    case 0: ::operator delete(p); break;
    case 1: ::operator delete(p, n); break;
    case 2: ::operator delete(p, std::nothrow); break;
    case 3: ::operator delete[](p); break;
    case 4: ::operator delete[](p, n); break;
    case 5: ::operator delete[](p, std::nothrow); break;
    case 6: ::operator delete(p, al); break;
    case 7: ::operator delete(p, n, al); break;
    case 8: ::operator delete(p, al, std::nothrow); break;
    case 9: ::operator delete[](p, al); break;
    case 10: ::operator delete[](p, n, al); break;
    case 11: ::operator delete[](p, al, std::nothrow); break;
    }
}
/* 0: no handler; n > 0: a handler that gives up (uninstalls itself) at its n-th call */
extern "C" void cpp_handler(int n) { handler_calls = 0; handler_limit = n; std::set_new_handler(n ? count_handler : nullptr); }
extern "C" int cpp_handler_calls() { return handler_calls; }
struct Plain { long x[5]; Plain() { for(auto &i : x) i = 7; } ~Plain() { x[0] = 0; } };
struct alignas(256) Over { char c[256]; };
struct Virt { virtual ~Virt() {} long a[3]; };
struct Derived : Virt { char more[500]; ~Derived() override { more[0] = 1; } };
/* whole expressions: the compiler chooses the form */
extern "C" void *cpp_expr(int k, size_t *align) {
    *align = 8;
    switch(k) {
    case 0: return new Plain;
    case 1: return new Plain[33];
    case 2: *align = 256; return new Over;
    case 3: *align = 256; return new Over[7];
    case 4: { Virt *v = new Derived; return v; }
    case 5: return new(std::nothrow) Plain;
    case 6: *align = 256; return new(std::nothrow) Over;
    case 7: return new char[100000];
    }
    return nullptr;
}
extern "C" void cpp_unexpr(int k, void *p) {
    switch(k) {
    case 0: case 5: delete(Plain *) p; break;
    case 1: delete[](Plain *) p; break;
    case 2: case 6: delete(Over *) p; break;
    case 3: delete[](Over *) p; break;
    case 4: delete(Virt *) p; break;
    case 7: delete[](char *) p; break;
    }
}
