#include "interp.h"
using namespace llvm;

u32 Engine::newObj(State& s, u64 size, bool heap, const std::string& name) {
    auto o = std::make_shared<Obj>();
    o->size = size;
    o->heap = heap;
    o->name = name;
    s.mem.push_back(o);
    return s.mem.size() - 1;
}
Obj& Engine::wobj(State& s, u32 id) {
    auto& p = s.mem[id];
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}
bool Engine::check(State& s, Ins& in, AV& ptr, u64 size, bool write) {
    if (ptr.k == K_IC) ptr = mkPtr(0, ptr.c);
    if (ptr.k == K_UNDEF) {
        fail(s, &in, "uninit", std::string(write ? "write" : "read") + " through an uninitialised pointer");
        return false;
    }
    if (ptr.k == K_PTRP) {
        AV o = mkIPoly(s.f.norm(ptr.p), 64);
        if (o.k == K_IC) ptr = mkPtr(ptr.obj, (i64)o.c);
        else {
            i64 v = concretize(s, o, true, "memory offset");
            ptr = mkPtr(ptr.obj, v);
        }
    }
    if (ptr.k != K_PTR) throw KillPath{"access through an unknown pointer", true};
    if (ptr.obj == 0) {
        fail(s, &in, "null", std::string(write ? "write" : "read") + " through a null pointer");
        return false;
    }
    if (ptr.obj >= s.mem.size() || !s.mem[ptr.obj]) {
        fail(s, &in, "uaf", "access to an object that no longer exists (dangling stack reference)");
        return false;
    }
    const Obj& o = *s.mem[ptr.obj];
    if (o.freed) {
        fail(s, &in, "uaf", std::string(write ? "write to" : "read of") + " freed memory");
        return false;
    }
    if (o.opaque) return true;
    if (ptr.off < 0 || (u64)ptr.off + size > o.size) {
        fail(s, &in, "oob", std::string(write ? "write" : "read") + " of " + std::to_string(size) + " bytes at offset " + std::to_string(ptr.off) +
                                " outside an object of " + std::to_string(o.size) + " bytes" + (o.name.empty() ? "" : " (" + o.name + ")"));
        return false;
    }
    ok("memory-bounds");
    return true;
}
static int tyClass(Type* T) {  // 0 int 1 ptr 2 float 3 agg
    if (T->isIntegerTy()) return 0;
    if (T->isPointerTy()) return 1;
    if (T->isFloatingPointTy()) return 2;
    return 3;
}
AV Engine::bitcastTo(State& s, AV v, Type* T) {
    int c = tyClass(T);
    if (v.k == K_UNDEF) return v;
    if (c == 0) {
        int w = T->getIntegerBitWidth();
        if (v.k == K_FC && v.w == 32) {
            float f = v.d;
            u32 u;
            memcpy(&u, &f, 4);
            return mkI(u, w);
        }
        if (v.k == K_FC && v.w == 64) {
            u64 u;
            memcpy(&u, &v.d, 8);
            return mkI(u, w);
        }
        if (v.k == K_FB) return mkBits(v.bv->b);
        if (v.k == K_FP || v.k == K_FT) {
            AV r = mkTop(w);
            return r;
        }
        if (v.k == K_PTR && v.obj == 0) return mkI(v.off, w);
        if (v.k >= K_IC && v.k <= K_IT && v.w != w) return castInt(s, v.w > w ? Instruction::Trunc : Instruction::ZExt, v, w);
        return v;
    }
    if (c == 2) {
        int w = T->isFloatTy() ? 32 : T->isDoubleTy() ? 64 : 80;
        v = simp(s, v);
        if (v.k == K_IC) {
            if (w == 32) {
                u32 u = v.c;
                float f;
                memcpy(&f, &u, 4);
                return mkF(f, 32);
            }
            double d;
            memcpy(&d, &v.c, 8);
            AV r = mkF(d, 64);
            r.w = w;
            return r;
        }
        if (v.k == K_IB) {
            AV r;
            r.k = K_FB;
            r.w = w;
            r.bv = v.bv;
            return r;
        }
        if (v.k == K_IP) {
            std::vector<u32> b;
            if (toBits(s, v, b)) {
                AV r = mkBits(b);
                if (r.k == K_IC) return bitcastTo(s, r, T);
                AV q;
                q.k = K_FB;
                q.w = w;
                q.bv = r.bv;
                for (u32 l : b)
                    if (l == 2) return mkFTop(w);
                return q;
            }
            return mkFTop(w);
        }
        if (v.k == K_IT) return mkFTop(w);
        return v;
    }
    if (c == 1) {
        if (v.k == K_IC) return mkPtr(0, v.c);
        if (v.k == K_IT || v.k == K_IB || v.k == K_IP) {
            AV r;
            r.k = K_PT;
            r.w = 64;
            return r;
        }
        return v;
    }
    return v;
}
void Engine::eraseRange(Obj& o, u32 off, u32 sz) {
    size_t i = o.lb(off);
    u32 end = off + sz;
    while (i < o.cells.size() && o.cells[i].off < end) {
        Cell c = o.cells[i];
        u32 ce = c.off + c.sz;
        if (c.off >= off && ce <= end) {
            o.cells.erase(o.cells.begin() + i);
            continue;
        }
        // partial overlap
        o.cells.erase(o.cells.begin() + i);
        std::vector<Cell> parts;
        if (c.v.k == K_ZERO) {
            if (c.off < off) parts.push_back({c.off, off - c.off, c.v});
            if (ce > end) parts.push_back({end, ce - end, c.v});
        } else {
            // split into bytes where representable
            std::vector<u32> b;
            bool rep = false;
            AV v = c.v;
            if (v.k == K_FC) {
                u64 u;
                if (v.w == 32) {
                    float f = v.d;
                    u32 q;
                    memcpy(&q, &f, 4);
                    u = q;
                } else
                    memcpy(&u, &v.d, 8);
                v = mkI(u, c.sz * 8);
            }
            if (v.k == K_PTR && v.obj == 0) v = mkI(v.off, 64);
            if (v.k == K_IC) {
                for (u32 q = 0; q < c.sz * 8; q++) b.push_back(q < 64 ? (v.c >> q) & 1 : 0);
                rep = true;
            } else if (v.k == K_IB || v.k == K_FB) {
                b = v.bv->b;
                b.resize(c.sz * 8, 0);
                rep = true;
            } else if (v.k != K_UNDEF) {
                b.assign(c.sz * 8, 2);
                rep = true;
            }
            if (rep)
                for (u32 q = 0; q < c.sz; q++) {
                    u32 bo = c.off + q;
                    if (bo >= off && bo < end) continue;
                    parts.push_back({bo, 1, mkBits(std::vector<u32>(b.begin() + q * 8, b.begin() + q * 8 + 8))});
                }
        }
        o.cells.insert(o.cells.begin() + i, parts.begin(), parts.end());
        while (i < o.cells.size() && o.cells[i].off < off) i++;
        while (i < o.cells.size() && o.cells[i].off < end) i++;
    }
}
void Engine::writeCell(Obj& o, u32 off, u32 sz, AV v) {
    size_t i = o.lb(off);
    if (i < o.cells.size() && o.cells[i].off == off && o.cells[i].sz == sz) {
        o.cells[i].v = v;
        return;
    }
    if (i < o.cells.size() && o.cells[i].off < off + sz) {
        eraseRange(o, off, sz);
        i = o.lb(off);
    }
    o.cells.insert(o.cells.begin() + i, Cell{off, sz, v});
}
AV Engine::loadRaw(State& s, const Obj& o, u32 off, u32 sz, int cls, int w) {
    size_t i = o.lb(off);
    AV undef;
    undef.w = w;
    if (i >= o.cells.size() || o.cells[i].off >= off + sz) {
        return undef;
    }
    const Cell& c = o.cells[i];
    if (c.off == off && c.sz == sz && c.v.k != K_ZERO) return c.v;
    if (c.v.k == K_ZERO && c.off <= off && c.off + c.sz >= off + sz) {
        if (cls == 1) return mkPtr(0, 0);
        if (cls == 2) return mkF(0, w);
        return mkI(0, w);
    }
    // assemble bits
    std::vector<u32> b(sz * 8, 3);
    bool any = false;
    for (; i < o.cells.size() && o.cells[i].off < off + sz; i++) {
        const Cell& d = o.cells[i];
        AV v = d.v;
        std::vector<u32> x;
        if (v.k == K_ZERO) x.assign(d.sz * 8, 0);
        else if (v.k == K_FC) {
            u64 u;
            if (v.w == 32) {
                float f = v.d;
                u32 q;
                memcpy(&q, &f, 4);
                u = q;
            } else
                memcpy(&u, &v.d, 8);
            for (u32 q = 0; q < d.sz * 8; q++) x.push_back(q < 64 ? (u >> q) & 1 : 0);
        } else if (v.k == K_IC || (v.k == K_PTR && v.obj == 0)) {
            for (u32 q = 0; q < d.sz * 8; q++) x.push_back(q < 64 ? (v.c >> q) & 1 : 0);
        } else if (v.k == K_IB || v.k == K_FB) {
            x = v.bv->b;
            x.resize(d.sz * 8, 0);
        } else if (v.k == K_UNDEF) x.assign(d.sz * 8, 3);
        else
            x.assign(d.sz * 8, 2);
        for (u32 q = 0; q < d.sz * 8; q++) {
            i64 pos = (i64)d.off * 8 + q - (i64)off * 8;
            if (pos >= 0 && pos < (i64)b.size()) b[pos] = x[q], any = true;
        }
    }
    if (!any) return undef;
    bool all3 = true;
    for (auto& l : b)
        if (l != 3) all3 = false;
    if (all3) return undef;
    for (auto& l : b)
        if (l == 3) l = 2;
    if (w && cls == 0 && (int)b.size() > w) b.resize(w);
    if (b.size() > 64) {
        return mkTop(w);
    }
    return mkBits(b);
}
AV Engine::load(State& s, u32 obj, i64 off, Type* T) {
    const Obj& o = *s.mem[obj];
    int cls = tyClass(T);
    if (cls == 3) {
        std::vector<AV> v;
        if (auto* ST = dyn_cast<StructType>(T)) {
            auto* SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++) v.push_back(load(s, obj, off + SL->getElementOffset(i), ST->getElementType(i)));
        } else {
            Type* E = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
            u64 n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            u64 es = DL->getTypeAllocSize(E);
            for (u64 i = 0; i < n; i++) v.push_back(load(s, obj, off + i * es, E));
        }
        return mkAgg(v);
    }
    u32 sz = DL->getTypeStoreSize(T);
    int w = cls == 0 ? T->getIntegerBitWidth() : cls == 1 ? 64 : T->isFloatTy() ? 32 : T->isDoubleTy() ? 64 : 80;
    if (o.opaque) {
        if (cls == 0) return mkTop(w);
        if (cls == 2) return mkFTop(w);
        AV r;
        r.k = K_PT;
        r.w = 64;
        return r;
    }
    if (cls == 0 && sz > 1) {  // several cells, at least one of them not a bit pattern: keep them apart
        size_t i = o.lb(off);
        bool inside = true, sym = false;
        size_t n = 0;
        for (size_t j = i; j < o.cells.size() && o.cells[j].off < off + sz; j++) {
            const Cell& c = o.cells[j];
            n++;
            if (c.off < off || c.off + c.sz > off + sz) inside = false;
            if (c.v.k != K_IC && c.v.k != K_IB && c.v.k != K_FC && c.v.k != K_FB && c.v.k != K_ZERO) sym = true;
        }
        if (n && inside && sym && !(n == 1 && o.cells[i].sz == sz)) {
            std::vector<AV> e;
            for (size_t j = i; j < o.cells.size() && o.cells[j].off < off + sz; j++) {
                e.push_back(mkI(o.cells[j].off - off, 32));
                e.push_back(mkI(o.cells[j].sz, 32));
                e.push_back(o.cells[j].v);
            }
            AV r = mkAgg(e);
            r.k = K_PACK;
            r.w = w;
            return r;
        }
    }
    AV v = loadRaw(s, o, off, sz, cls, w);
    if (v.k == K_UNDEF) {
        v.w = w;
        return v;
    }
    if (cls == 0 && (v.k == K_PTR || v.k == K_PTRP || v.k == K_FN || v.k == K_PT) && w == 64) return v;
    v = bitcastTo(s, v, T);
    if (cls == 0 && v.k >= K_IC && v.k <= K_IT && v.w != w) v = castInt(s, v.w > w ? Instruction::Trunc : Instruction::ZExt, v, w);
    return v;
}
void Engine::store(State& s, u32 obj, i64 off, AV v, Type* T) {
    int cls = tyClass(T);
    if (cls == 3) {
        std::vector<AV> e;
        if (v.k == K_AGG) e = *v.ag;
        if (auto* ST = dyn_cast<StructType>(T)) {
            auto* SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++) store(s, obj, off + SL->getElementOffset(i), i < e.size() ? e[i] : AV(), ST->getElementType(i));
        } else {
            Type* E = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
            u64 n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            u64 es = DL->getTypeAllocSize(E);
            for (u64 i = 0; i < n; i++) store(s, obj, off + i * es, i < e.size() ? e[i] : AV(), E);
        }
        return;
    }
    Obj& o = wobj(s, obj);
    if (o.opaque) return;
    u32 sz = DL->getTypeStoreSize(T);
    if (v.k == K_UNDEF) {
        eraseRange(o, off, sz);
        return;
    }
    if (v.k == K_PACK) {
        eraseRange(o, off, sz);
        for (size_t i = 0; i + 2 < v.ag->size(); i += 3) writeCell(o, off + (*v.ag)[i].c, (*v.ag)[i + 1].c, (*v.ag)[i + 2]);
        return;
    }
    if (cls == 0 && T->getIntegerBitWidth() % 8 && v.k >= K_IC && v.k <= K_IT) v = castInt(s, Instruction::ZExt, v, sz * 8);
    writeCell(o, off, sz, v);
}
void Engine::copyMem(State& s, u32 dobj, i64 doff, u32 sobj, i64 soff, u64 n) {
    if (!n) return;
    std::vector<Cell> cp;
    {
        const Obj& so = *s.mem[sobj];
        if (!so.opaque) {
            size_t i = so.lb(soff);
            for (; i < so.cells.size() && so.cells[i].off < soff + n; i++) {
                Cell c = so.cells[i];
                if (c.off >= soff && c.off + c.sz <= soff + n) {
                    c.off = c.off - soff;
                    cp.push_back(c);
                } else if (c.v.k == K_ZERO) {
                    u64 b = std::max<u64>(c.off, soff), e = std::min<u64>(c.off + c.sz, soff + n);
                    c.off = b - soff;
                    c.sz = e - b;
                    cp.push_back(c);
                } else {
                    for (u32 q = 0; q < c.sz; q++) {
                        u64 bo = c.off + q;
                        if (bo < (u64)soff || bo >= soff + n) continue;
                        AV v = loadRaw(s, so, bo, 1, 0, 8);
                        if (v.k == K_UNDEF) continue;
                        if (v.k != K_IC && v.k != K_IB) v = mkTop(8);
                        cp.push_back({(u32)(bo - soff), 1, v});
                    }
                }
            }
        }
    }
    Obj& d = wobj(s, dobj);
    if (d.opaque) return;
    eraseRange(d, doff, n);
    size_t pos = d.lb(doff);
    for (auto& c : cp) c.off += doff;
    d.cells.insert(d.cells.begin() + pos, cp.begin(), cp.end());
}
