"""Harness translation units: extern "C" entry points that do nothing but call
one public operation of the library each.  Everything verified is what clang
makes of the library's own headers when they are included here."""
from . import specs

PRE = r'''
#include <cthash/cthash.hpp>
#include <new>
#include <span>
#include <cstddef>
#include <cstdint>
'''

SINGLE = PRE.replace('cthash/cthash.hpp', 'cthash-single-header.hpp')

COMMON = r'''
using H_@id@ = @type@;
extern "C" {
unsigned long v_sizeof_@id@() { return sizeof(H_@id@); }
void v_ctor_@id@(void * p@seedparam@) { new (p) H_@id@(@seed@); }
H_@id@ * v_update_@id@(H_@id@ * h, const std::byte * p, size_t n) { return &h->update(std::span<const std::byte>(p, n)); }
void v_copy_@id@(void * p, const H_@id@ * h) { new (p) H_@id@(*h); }
void v_move_@id@(void * p, H_@id@ * h) { new (p) H_@id@(static_cast<H_@id@ &&>(*h)); }
}
'''
FINAL = r'''
extern "C" {
void v_final_@id@(H_@id@ * h, std::byte * out) { h->final(std::span<std::byte, @digest@>(out, @digest@)); }
void v_value_@id@(H_@id@ * h, void * out) { using V = decltype(h->final()); static_assert(sizeof(V) == @digest@); new (out) V(h->final()); }
}
'''
SIZE = r'''
extern "C" unsigned long v_size_@id@(const H_@id@ * h) { return h->size(); }
'''
XX = r'''
extern "C" {
void v_direct_@id@(H_@id@ * h, const std::byte * p, size_t n, void * out) { using V = decltype(h->final()); new (out) V(h->update_and_final(std::span<const std::byte>(p, n))); }
}
'''
SQ = r'''
extern "C" {
void v_absorb_@id@(H_@id@ * h) { h->final_absorb(); }
void v_squeeze_@id@(H_@id@ * h, std::byte * out, size_t n) { h->squeeze(std::span<std::byte>(out, n)); }
}
'''
SHAKEN = r'''
extern "C" void v_final_@id@_@n@(H_@id@ * h, void * out) { using V = decltype(h->template final<@n@ * 8>()); static_assert(sizeof(V) == @n@); new (out) V(h->template final<@n@ * 8>()); }
'''


def sub(text, **kw):
    for k, v in kw.items():
        text = text.replace('@%s@' % k, str(v))
    return text


class Hash:
    def __init__(self, id, type, kind, w, block, digest, iv=None, suffix=0, lenbytes=8, pyname=None, shake=None):
        self.id, self.type, self.kind, self.w, self.block, self.digest = id, type, kind, w, block, digest
        self.iv, self.suffix, self.lenbytes, self.pyname = iv, suffix, lenbytes, pyname
        self.shake = shake          # output lengths (bytes) instantiated

    def tu(self):
        kw = dict(id=self.id, type=self.type, digest=self.digest,
                  seedparam=', std::uint%d_t s' % self.w if self.kind == 'xx' else '', seed='s' if self.kind == 'xx' else '')
        s = sub(COMMON, **kw)
        if self.shake:
            s += sub(SQ, **kw)
            for n in self.shake:
                s += sub(SHAKEN, n=n, **kw)
        else:
            s += sub(FINAL, **kw)
        if self.kind == 'sha2':
            s += sub(SIZE, **kw)
        if self.kind == 'xx':
            s += sub(XX, **kw)
        return s

    def spec(self, seed=None):
        from .hashunit import HashSpec
        return HashSpec(self.id, self.kind, self.w, self.block, self.digest, self.iv, self.suffix, self.lenbytes, seed)


def _all():
    L = []
    for n, b, d, lb in (('sha224', 64, 28, 8), ('sha256', 64, 32, 8), ('sha384', 128, 48, 16), ('sha512', 128, 64, 16)):
        L.append(Hash(n, 'cthash::' + n, 'sha2', 32 if b == 64 else 64, b, d, specs.IV[n], lenbytes=lb, pyname=n))
    for n in (224, 256, 384, 512):
        L.append(Hash('sha3_%d' % n, 'cthash::sha3_%d' % n, 'keccak', 64, 200 - n // 4, n // 8, suffix=6, pyname='sha3_%d' % n))
    for n in (128, 256):
        rate = 200 - n // 4
        L.append(Hash('shake%d' % n, 'cthash::shake%d' % n, 'keccak', 64, rate, 0, suffix=0x1f, pyname='shake_%d' % n,
                      shake=[1, 7, 8, 9, 16, 20, 32, 64, rate - 1, rate, rate + 1, rate + 8, 2 * rate + 3]))
    for n in (32, 64):
        L.append(Hash('xx%d' % n, 'cthash::xxhash%d' % n, 'xx', n, n // 2, n // 8))
    return L


HASHES = {h.id: h for h in _all()}


def sha512t(t):
    return Hash('sha512_%d' % t, 'cthash::sha512t<%d>' % t, 'sha2', 64, 128, t // 8, specs.sha512t_iv(t), lenbytes=16)


T_ALL = [t for t in range(8, 513, 8) if t != 384]
