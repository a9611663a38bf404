#pragma once
#include "mlse.h"
#include <memory>

#include "mlio/memory/heap_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"

inline void use_heap()
{
    mlio::set_memory_allocator(std::make_unique<mlio::Heap_memory_allocator>());
}
