// Static and thread-local variables of the library (should it have any): they are part of the state.
// Found by their names in the symbol table of this program, so that neither the harness's nor the engine's own variables are meant.
#pragma once
#include <elf.h>
#include <link.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>

namespace st {
struct Range { uintptr_t lo, hi; bool tls; };
inline std::vector<Range>& ranges() { static std::vector<Range> r; return r; }

inline bool of_library(const char* n) {
    if (strncmp(n, "_Z", 2)) return false;
    n += 2;
    if (!strncmp(n, "GV", 2)) n += 2; // guards
    if (*n == 'Z') ++n; // local in a function
    while (*n == 'N' || *n == 'K' || *n == 'V' || *n == 'R' || *n == 'O') ++n;
    if (!strncmp(n, "12_GLOBAL__N_1", 14)) n += 14;
    return !strncmp(n, "4xmem", 5) || !strncmp(n, "4xstd", 5);
}
inline void find() {
    uintptr_t base = 0, tls = 0;
    struct Ctx { uintptr_t *base, *tls; } ctx{&base, &tls};
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* c) { // the program itself comes first
        auto x = static_cast<Ctx*>(c);
        *x->base = i->dlpi_addr; *x->tls = (uintptr_t)i->dlpi_tls_data;
        return 1;
    }, &ctx);
    int fd = open("/proc/self/exe", O_RDONLY); struct stat s;
    if (fd < 0 || fstat(fd, &s)) return;
    auto f = (const char*)mmap(nullptr, s.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    if (f == MAP_FAILED) return;
    auto eh = (const Elf64_Ehdr*)f; auto sh = (const Elf64_Shdr*)(f + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; ++i) {
        if (sh[i].sh_type != SHT_SYMTAB) continue;
        auto names = f + sh[sh[i].sh_link].sh_offset;
        auto sy = (const Elf64_Sym*)(f + sh[i].sh_offset);
        for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k) {
            int type = ELF64_ST_TYPE(sy[k].st_info);
            if ((type != STT_OBJECT && type != STT_TLS) || !sy[k].st_size || sy[k].st_shndx == SHN_UNDEF || sy[k].st_shndx >= eh->e_shnum) continue;
            if (!(sh[sy[k].st_shndx].sh_flags & SHF_WRITE) || !of_library(names + sy[k].st_name)) continue;
            if (!strncmp(names + sy[k].st_name, "_ZTV", 4) || (type == STT_TLS && !tls)) continue;
            uintptr_t lo = (type == STT_TLS ? tls : base) + sy[k].st_value;
            ranges().push_back({lo, lo + sy[k].st_size, type == STT_TLS});
        }
    }
    munmap((void*)f, s.st_size);
    std::sort(ranges().begin(), ranges().end(), [](const Range& a, const Range& b) { return a.lo < b.lo; });
}
inline size_t bytes() { size_t n = 0; for (auto& r : ranges()) n += r.hi - r.lo; return n; }
inline void save(char* p) { for (auto& r : ranges()) { memcpy(p, (void*)r.lo, r.hi - r.lo); p += r.hi - r.lo; } }
inline void restore(const char* p) { for (auto& r : ranges()) { memcpy((void*)r.lo, p, r.hi - r.lo); p += r.hi - r.lo; } }
} // namespace st
