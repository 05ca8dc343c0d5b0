// Structures of the C interface (libCZIAPI) and their counterparts in the model.
#pragma once
#include "core/doc.h"
#include "libCZIApi.h"
#include <limits>

namespace sim {
namespace capi {
inline CoordinateInterop coord_of(const CDimCoordinate& c)
{
    CoordinateInterop r; memset(&r, 0, sizeof(r)); int k = 0; for (int i = 1; i <= (int)kMaxDimensionCount; ++i) { int v; if (c.TryGetPosition((DimensionIndex)i, &v)) { r.dimensions_valid |= 1u << (i - 1); r.value[k++] = v; } } return r;
}
inline CDimCoordinate coord_from(const CoordinateInterop& c) { CDimCoordinate r; int k = 0; for (int i = 1; i <= (int)kMaxDimensionCount; ++i) if (c.dimensions_valid & (1u << (i - 1))) r.Set((DimensionIndex)i, c.value[k++]); return r; }
inline SubBlockInfo info_from(const SubBlockInfoInterop& i)
{
    SubBlockInfo r; r.compressionModeRaw = i.compression_mode_raw; r.pixelType = (PixelType)i.pixel_type; r.coordinate = coord_from(i.coordinate); r.logicalRect = IntRect{i.logical_rect.x, i.logical_rect.y, i.logical_rect.w, i.logical_rect.h}; r.physicalSize = IntSize{(uint32_t)i.physical_size.w, (uint32_t)i.physical_size.h}; r.mIndex = i.m_index == std::numeric_limits<int32_t>::min() ? std::numeric_limits<int>::max() : i.m_index; return r;
}
inline std::string sub_diff(const SubBlockInfoInterop& i, const Sub& s) { SubBlockInfo b = info_from(i); b.pyramidType = s.pyr; return info_diff(b, s); }   // the pyramid type is not part of the C structure
inline IntRect rect_from(const IntRectInterop& r) { return IntRect{r.x, r.y, r.w, r.h}; }
template <class S> SubBlockStatistics stat_from(const S& s)
{
    SubBlockStatistics r; r.Invalidate(); r.subBlockCount = s.sub_block_count; r.minMindex = s.min_m_index; r.maxMindex = s.max_m_index; r.boundingBox = rect_from(s.bounding_box); r.boundingBoxLayer0Only = rect_from(s.bounding_box_layer0); int k = 0;
    r.dimBounds.Clear(); for (int i = 1; i <= (int)kMaxDimensionCount; ++i) if (s.dim_bounds.dimensions_valid & (1u << (i - 1))) { r.dimBounds.Set((DimensionIndex)i, s.dim_bounds.start[k], s.dim_bounds.size[k]); ++k; }
    return r;
}
inline bool att_same(const AttachmentInfoInterop& i, const Att& a) { return !memcmp(i.guid, &a.guid, 16) && !i.name_overflow && fixed(i.name, 255) == fixed(a.name, 80) && fixed((const char*)i.content_file_type, 9) == fixed(a.type, 8); }
} // namespace capi
} // namespace sim
