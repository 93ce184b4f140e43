/* common helpers for harnesses */
#ifndef VFH_H
#define VFH_H
#include "vf.h"
#include "fidogate.h"
#define VFS(f) ((struct vf_stream *)(f))
static inline void vf_any_node(Node *n, int zmax)
{
    n->zone = vf_range(0, zmax); n->net = vf_u16(); n->node = vf_u16(); n->point = vf_u16();
    n->domain[0] = 0; n->flags = 0;
}
#endif
