// P23: packing and unpacking are inverse copies of a sub-box; scaling multiplies every entry once.
#include "hx.h"
#include <sys/mman.h>
using namespace hx;
using heffte::pack_plan_3d; using heffte::direct_packer; using heffte::transpose_packer; namespace tag = heffte::tag;
template<class T> static T val(long i){ return scal<T>::make((double)(i + 1), (double)-(i + 1) / 2); }
static std::string in_sim(std::function<void()> const &f){ return mc::simulate(1, [&](int){ f(); }, 0); }

// a sub-box (offset o, size s) of an array of size n (storage order: dimension 0 fastest)
template<class T, class index> static void direct(I3 n, I3 o, I3 s){
    long N = (long)n[0] * n[1] * n[2], S = (long)s[0] * s[1] * s[2];
    Buf<T> a(N), b(S, 0x11), r(N, 0x22);
    for(long i=0; i<N; i++) a[i] = val<T>(i);
    auto as = a.snapshot(); auto rs = r.snapshot();
    pack_plan_3d<index> p; for(int d=0; d<3; d++){ p.size[d] = s[d]; p.map[d] = d; }
    p.line_stride = n[0]; p.plane_stride = (index)n[0] * n[1]; p.buff_line_stride = p.buff_plane_stride = -7;
    long off = ((long)o[2] * n[1] + o[1]) * n[0] + o[0];
    direct_packer<tag::cpu>().pack(nullptr, p, a.data() + off, b.data());
    HX_REQUIRE(a.same(as) && a.guards_ok() && b.guards_ok(), "pack changed its source or wrote outside");
    long l = 0; for(int k=0; k<s[2]; k++) for(int j=0; j<s[1]; j++) for(int i=0; i<s[0]; i++, l++) HX_REQUIRE(b[l] == val<T>(((long)(o[2]+k) * n[1] + o[1]+j) * n[0] + o[0]+i), "pack put the wrong point at %ld", l);
    Buf<T> b2(S, 0x33); transpose_packer<tag::cpu>().pack(nullptr, p, a.data() + off, b2.data());
    HX_REQUIRE(b2.guards_ok() && (S == 0 || memcmp(b.data(), b2.data(), S * sizeof(T)) == 0), "the two packers pack differently");
    auto bs = b.snapshot();
    direct_packer<tag::cpu>().unpack(nullptr, p, b.data(), r.data() + off);
    HX_REQUIRE(b.same(bs) && r.guards_ok(), "unpack changed its source or wrote outside");
    for(int k=0; k<n[2]; k++) for(int j=0; j<n[1]; j++) for(int i=0; i<n[0]; i++){
        long g = ((long)k * n[1] + j) * n[0] + i; bool in = i >= o[0] && i < o[0]+s[0] && j >= o[1] && j < o[1]+s[1] && k >= o[2] && k < o[2]+s[2];
        if (in) HX_REQUIRE(r[g] == a[g], "unpack missed point %d,%d,%d", i, j, k); else HX_REQUIRE(memcmp(&r[g], &rs[g * sizeof(T)], sizeof(T)) == 0, "unpack touched point %d,%d,%d outside of the sub-box", i, j, k);
    }
}
// a buffer packed in the order of a source box, put into a target array of another order: local dimension d of the
// buffer is local dimension map[d] of the target
template<class T, class index> static void transpose(I3 s, I3 map, I3 pad){
    I3 b; for(int d=0; d<3; d++) b[d] = s[map[d]];     // size of the buffer in its own order
    long S = (long)s[0] * s[1] * s[2]; I3 n = {{s[0] + pad[0], s[1] + pad[1], s[2] + pad[2]}}; long N = (long)n[0] * n[1] * n[2];
    Buf<T> q(S), r(N, 0x22); for(long i=0; i<S; i++) q[i] = val<T>(i);
    auto qs = q.snapshot(), rs = r.snapshot();
    pack_plan_3d<index> p; for(int d=0; d<3; d++){ p.size[d] = s[d]; p.map[d] = map[d]; }
    p.line_stride = n[0]; p.plane_stride = (index)n[0] * n[1]; p.buff_line_stride = b[0]; p.buff_plane_stride = (index)b[0] * b[1];
    long off = ((long)(pad[2] / 2) * n[1] + pad[1] / 2) * n[0] + pad[0] / 2;
    transpose_packer<tag::cpu>().unpack(nullptr, p, q.data(), r.data() + off);
    HX_REQUIRE(q.same(qs) && r.guards_ok() && q.guards_ok(), "transpose changed its source or wrote outside");
    I3 c; for(c[2]=0; c[2]<n[2]; c[2]++) for(c[1]=0; c[1]<n[1]; c[1]++) for(c[0]=0; c[0]<n[0]; c[0]++){
        long g = ((long)c[2] * n[1] + c[1]) * n[0] + c[0]; I3 t, u; bool in = true;
        for(int d=0; d<3; d++){ t[d] = c[d] - pad[d] / 2; if (t[d] < 0 || t[d] >= s[d]) in = false; }
        for(int d=0; d<3; d++) u[d] = t[map[d]];
        if (in) HX_REQUIRE(r[g] == val<T>(((long)u[2] * b[1] + u[1]) * b[0] + u[0]), "wrong point at %d,%d,%d", t[0], t[1], t[2]);
        else HX_REQUIRE(memcmp(&r[g], &rs[g * sizeof(T)], sizeof(T)) == 0, "touched a point outside of the sub-box");
    }
}
template<class T, class index> static void scaling(int n){
    for(double f : {0.0, 1.0, -2.0, 0.5, 3.0}){
        Buf<T> a(n); for(int i=0; i<n; i++) a[i] = val<T>(i);
        heffte::data_scaling::apply(nullptr, (index)n, a.data(), f);
        HX_REQUIRE(a.guards_ok(), "scaling wrote outside");
        for(int i=0; i<n; i++) HX_REQUIRE(a[i] == val<T>(i) * (typename scal<T>::real)f, "scaling of entry %d", i);
        heffte::data_scaling::apply((index)n, a.data(), 2.0);
        for(int i=0; i<n; i++) HX_REQUIRE(a.guards_ok() && a[i] == val<T>(i) * (typename scal<T>::real)(2 * f), "scaling of entry %d", i);
    }
}
// strides that put the points of a small sub-box far from each other, up to offsets of 2^31 and (64-bit indexes) beyond
template<class T, class index> static void far(I3 s, long line, long plane, I3 map){
    long span = (s[1] - 1) * line + (s[2] - 1) * plane + s[0]; size_t bytes = span * sizeof(T) + 4096;
    void *m = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED){ mc::ctx->count("far_skipped_no_address_space"); return; }
    T *a = (T*)m; long S = (long)s[0] * s[1] * s[2]; I3 b; for(int d=0; d<3; d++) b[d] = s[map[d]];
    Buf<T> q(S, 0x11), r(S, 0x22);
    pack_plan_3d<index> p; for(int d=0; d<3; d++){ p.size[d] = s[d]; p.map[d] = map[d]; }
    p.line_stride = (index)line; p.plane_stride = (index)plane; p.buff_line_stride = b[0]; p.buff_plane_stride = (index)b[0] * b[1];
    auto at = [&](int i, int j, int k)->T&{ return a[k * plane + j * line + i]; };
    std::string bad; auto need = [&](bool ok, char const *what){ if (!ok && bad.empty()) bad = what; };
    for(long l=0; l<S; l++) q[l] = val<T>(l);
    bool straight = map[0] == 0 && map[1] == 1;
    if (straight) direct_packer<tag::cpu>().unpack(nullptr, p, q.data(), a);
    else transpose_packer<tag::cpu>().unpack(nullptr, p, q.data(), a);
    I3 t; for(t[2]=0; t[2]<s[2]; t[2]++) for(t[1]=0; t[1]<s[1]; t[1]++) for(t[0]=0; t[0]<s[0]; t[0]++){ I3 u; for(int d=0; d<3; d++) u[d] = t[map[d]];
        need(at(t[0], t[1], t[2]) == val<T>(((long)u[2] * b[1] + u[1]) * b[0] + u[0]), "unpacked a wrong point"); at(t[0], t[1], t[2]) = val<T>(100 + (t[2] * s[1] + t[1]) * s[0] + t[0]); }
    transpose_packer<tag::cpu>().pack(nullptr, p, a, r.data());
    for(long l=0; l<S; l++) need(r[l] == val<T>(100 + l), "packed a wrong point");
    munmap(m, bytes);
    HX_REQUIRE(bad.empty() && q.guards_ok() && r.guards_ok(), "%s", bad.c_str());
}
// the transposing plans made by the library for the overlap of two boxes: the buffer is in the order of the sender
template<class index> static void plans(World const &w, B const &own, B const &other, int oo, int ot){
    std::vector<box3d<index>> boxes(1, tobox<index>(other, ORDERS[ot]));
    std::vector<int> proc, offset, sizes; std::vector<pack_plan_3d<index>> plans;
    B x; for(int d=0; d<3; d++){ x.lo[d] = std::max(own.lo[d], other.lo[d]); x.hi[d] = std::min(own.hi[d], other.hi[d]); }
    heffte::compute_overlap_map_transpose_pack(0, 1, tobox<index>(own, ORDERS[oo]), boxes, proc, offset, sizes, plans);
    HX_REQUIRE(proc.size() == (empty(x) ? 0u : 1u), "overlap with %zu boxes", proc.size());
    if (empty(x)) return;
    HX_REQUIRE(offset.size() == 1 && sizes.size() == 1 && plans.size() == 1 && proc[0] == 0 && sizes[0] == count(x), "overlap sizes");
    std::vector<double> buf(sizes[0]), back(count(own), -1);
    each(w, x, ORDERS[ot], [&](long l, long g, I3 const&){ buf[l] = (double)g; });
    transpose_packer<tag::cpu>().unpack(nullptr, plans[0], buf.data(), back.data() + offset[0]);
    each(w, own, ORDERS[oo], [&](long l, long g, I3 const &c){
        bool in = true; for(int d=0; d<3; d++) if (c[d] < x.lo[d] || c[d] > x.hi[d]) in = false;
        HX_REQUIRE(back[l] == (in ? (double)g : -1), "unpacked the wrong point"); });
}
template<class T> static void types(mc::Ctx &c, int kind, I3 a, I3 b, I3 m){
    char const *nm[] = {"direct", "transpose"};
    for(int L=0; L<2; L++) c.test([&]{ return fmt("%s %s%s %d.%d.%d %d.%d.%d %d.%d.%d", nm[kind], scal<T>::name(), L ? "L" : "", a[0], a[1], a[2], b[0], b[1], b[2], m[0], m[1], m[2]); },
        [&]{ return in_sim([&]{ if (kind == 0){ if (L) direct<T, long long>(a, b, m); else direct<T, int>(a, b, m); } else { if (L) transpose<T, long long>(a, b, m); else transpose<T, int>(a, b, m); } }); });
}
static void any(mc::Ctx &c, int k, int kind, I3 a, I3 b, I3 m){
    switch(k % 4){ case 0: types<double>(c, kind, a, b, m); break; case 1: types<float>(c, kind, a, b, m); break; case 2: types<std::complex<double>>(c, kind, a, b, m); break; case 3: types<std::complex<float>>(c, kind, a, b, m); }
}
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; int k = 0, N = th ? 5 : 4;
    // every sub-box of every array
    for(auto const &w : worlds(1, N)) for(int x=0; x<w.n[0]; x++) for(int sx=1; x+sx<=w.n[0]; sx++) for(int y=0; y<w.n[1]; y++) for(int sy=1; y+sy<=w.n[1]; sy++) for(int z=0; z<w.n[2]; z++) for(int sz=1; z+sz<=w.n[2]; sz++)
        any(c, k++, 0, w.n, {{x,y,z}}, {{sx,sy,sz}});
    // every transposition, all scalar types
    for(auto const &w : worlds(1, N)) for(int m=0; m<6; m++) for(int p=0; p<8; p++) for(int t=0; t<4; t++) any(c, t, 1, w.n, ORDERS[m], {{(p & 1) * 3, (p & 2), (p & 4)}});
    // around the cache blocks of the transposition: 64, 32, 16 elements
    for(int t=0; t<4; t++){
        int blk = t == 0 ? 32 : t == 1 ? 64 : t == 2 ? 16 : 32;
        for(int m=0; m<6; m++) for(int da=-1; da<=1; da++) for(int db=-1; db<=1; db++) for(int v=0; v<3; v++) for(int f=1; f<=(th ? 3 : 2); f++){
            I3 s = {{blk * f + da, blk + db, 2}}; std::swap(s[v], s[2]);
            if (v == 0) std::swap(s[1], s[2]);
            any(c, t, 1, s, ORDERS[m], {{0, 0, 0}}); any(c, t, 1, {{s[2], s[0], s[1]}}, ORDERS[m], {{2, 0, 3}});
        }
        if (t == 2 || th) for(int m=0; m<6; m++) for(int d=0; d<8; d++) any(c, t, 1, {{blk + (d & 1), blk + (d >> 1 & 1), blk + (d >> 2)}}, ORDERS[m], {{0,0,0}});
    }
    // long lines, many lines, many planes
    for(int t=0; t<4; t++) for(int v=0; v<3; v++){
        std::vector<int> len; for(int n=5; n<=(th ? 300 : 140); n++) len.push_back(n);
        for(int n : {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4096, 4097}) len.push_back(n);
        for(int n : len){ I3 s = {{n, 2, 2}}; std::swap(s[0], s[v]); I3 o = {{1, 0, 1}}; I3 a; for(int d=0; d<3; d++) a[d] = s[d] + o[d] + (d == 1); any(c, t, 0, a, o, s);
            if (n > 140 && n < 1000) for(int m=0; m<6; m++) any(c, t, 1, s, ORDERS[m], {{1, 0, 1}}); }
    }
    for(int m=0; m<6; m++) for(long line : {7l, 65536l, 1l << 20, (1l << 29) - 1, (1l << 30) + 1}) for(long plane : {100l, 1l << 16, (1l << 29) + 5, 1l << 30, (1l << 31) - 40, (1l << 31) + 3, 3l << 30}) for(int sw=0; sw<2; sw++){
        if (line * 3 > plane && plane * 3 > line) continue;       // the points must not overlap
        long l = sw ? plane : line, p = sw ? line : plane; I3 s = {{3, l > (1l << 29) ? 2 : 3, p > (1l << 29) ? 2 : 3}};
        bool small = (s[1] - 1) * l + (s[2] - 1) * p + s[0] <= 2147483647l;
        if (l <= 2147483647l && p <= 2147483647l && small) c.test(fmt("far %ld %ld map=%d", l, p, m), [=]{ return in_sim([&]{ far<float, int>(s, l, p, ORDERS[m]); }); });
        c.test(fmt("far L %ld %ld map=%d", l, p, m), [=]{ return in_sim([&]{ far<float, long long>(s, l, p, ORDERS[m]); }); });
    }
    std::vector<int> cnt; for(int n=0; n<=(th ? 600 : 270); n++) cnt.push_back(n);
    for(int b : {511, 1023, 2047, 4095, 8191, 16383, 32767, 65535, 131071}) for(int d=0; d<3; d++) cnt.push_back(b + d);
    for(int n : cnt) c.test(fmt("scaling %d", n), [=]{ return in_sim([&]{ scaling<double, int>(n); scaling<float, int>(n); scaling<std::complex<double>, int>(n); scaling<std::complex<float>, int>(n); scaling<double, long long>(n); scaling<std::complex<float>, long long>(n); }); });
    // offsets and strides computed by the library for every pair of boxes in a world
    World w = W(3, 3, 3); if (th) w = W(4, 3, 4);
    std::vector<B> bx; { B b; for(b.lo[0]=0; b.lo[0]<w.n[0]; b.lo[0]++) for(b.hi[0]=b.lo[0]; b.hi[0]<w.n[0]; b.hi[0]++) for(b.lo[1]=0; b.lo[1]<w.n[1]; b.lo[1]++) for(b.hi[1]=b.lo[1]; b.hi[1]<w.n[1]; b.hi[1]++) for(b.lo[2]=0; b.lo[2]<w.n[2]; b.lo[2]++) for(b.hi[2]=b.lo[2]; b.hi[2]<w.n[2]; b.hi[2]++) bx.push_back(b); }
    for(auto const &a : bx) for(int oa=0; oa<6; oa++) c.test([&]{ return "overlap " + str(a) + fmt(" order=%d", oa); }, [&]{ return in_sim([&]{
        for(auto const &b : bx) for(int ob=0; ob<6; ob++){ plans<int>(w, a, b, oa, ob); if (ob == (oa + 1) % 6) plans<long long>(w, a, b, oa, ob); } }); });
}
MC_MAIN("P23_pack", enumerate)
