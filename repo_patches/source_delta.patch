From 80d1b086cf08214cea43544d01795df38c28897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 01/44] fix: validate the whole guest range in bulk memory
 accessors

is_readable/is_writable ignored their size argument, and the remaining range
checks computed addr + len with wrap-around, so memarray, copy_to_guest,
copy_from_guest, memset, memcmp and strlen could leave the guest arena.
---
 lib/libloong/memory.cpp        |  6 +++---
 lib/libloong/memory.hpp        | 12 ++++++++++--
 lib/libloong/memory_inline.hpp |  6 +++---
 lib/libloong/memory_rw.cpp     |  8 ++++----
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index dd289d8..00f38b8 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -262,9 +262,9 @@ void Memory::process_rela_section(size_t offset, size_t size, const MachineOptio
 
 size_t Memory::strlen(address_t addr, size_t maxlen) const
 {
-	const address_t end_addr = std::min(addr + maxlen, m_arena_size);
-	if (end_addr <= addr) return 0;
-	const address_t size = end_addr - addr;
+	if (addr >= m_arena_size) return 0;
+	const address_t size = std::min<address_t>(maxlen, m_arena_size - addr);
+	if (size == 0) return 0;
 	const char* ptr = memarray<char>(addr, size);
 	return ::strnlen(ptr, size);
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 8216215..09d78bf 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -145,12 +145,20 @@ namespace loongarch
 		void use_custom_arena(void* ptr, size_t size);
 		void free_arena();
 		static void free_arena_internal(uint8_t* arena, size_t size);
-		inline bool is_readable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
+		// Single-access checks: relies on the over-allocation at the end of the arena
+		inline bool is_readable(address_t addr) const noexcept {
 			return addr - m_rodata_start < m_arena_end_sub_rodata;
 		}
-		inline bool is_writable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
+		inline bool is_writable(address_t addr) const noexcept {
 			return addr - m_data_start < m_arena_end_sub_data;
 		}
+		// Range checks: the whole [addr, addr + size) must be inside the region
+		inline bool is_readable(address_t addr, size_t size) const noexcept {
+			return is_readable(addr) && size <= m_arena_end_sub_rodata - (addr - m_rodata_start);
+		}
+		inline bool is_writable(address_t addr, size_t size) const noexcept {
+			return is_writable(addr) && size <= m_arena_end_sub_data - (addr - m_data_start);
+		}
 		[[noreturn]] LA_COLD_PATH() static void protection_fault(address_t addr, const char* message);
 	};
 
diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index b147ff9..b94655e 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -33,7 +33,7 @@ inline void Memory::write(address_t addr, T value)
 			addr &= LA_MASKED_MEMORY_MASK;
 		}
 	} else {
-		if (LA_UNLIKELY(!is_writable(addr, sizeof(T)))) {
+		if (LA_UNLIKELY(!is_writable(addr))) {
 			protection_fault(addr, "Write to read-only memory");
 		}
 	}
@@ -44,7 +44,7 @@ inline void Memory::write(address_t addr, T value)
 template <typename T>
 inline const T* Memory::memarray(address_t addr, size_t count) const
 {
-	if (LA_UNLIKELY(!is_readable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > SIZE_MAX / sizeof(T) || !is_readable(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr);
 	}
 
@@ -54,7 +54,7 @@ inline const T* Memory::memarray(address_t addr, size_t count) const
 template <typename T>
 inline T* Memory::writable_memarray(address_t addr, size_t count)
 {
-	if (LA_UNLIKELY(!is_writable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > SIZE_MAX / sizeof(T) || !is_writable(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Write to read-only memory", addr);
 	}
 
diff --git a/lib/libloong/memory_rw.cpp b/lib/libloong/memory_rw.cpp
index aff9036..d2a0094 100644
--- a/lib/libloong/memory_rw.cpp
+++ b/lib/libloong/memory_rw.cpp
@@ -33,7 +33,7 @@ namespace loongarch
 			if (LA_UNLIKELY(src + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Read from out-of-bounds memory", src);
 			}
-		} else if (LA_UNLIKELY(src < m_rodata_start || src + len >= m_arena_size)) {
+		} else if (LA_UNLIKELY(!is_readable(src, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", src);
 		}
 
@@ -51,10 +51,10 @@ namespace loongarch
 
 	int Memory::memcmp(address_t addr1, address_t addr2, size_t len) const
 	{
-		if (LA_UNLIKELY(addr1 < m_rodata_start || addr1 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable(addr1, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr1);
 		}
-		if (LA_UNLIKELY(addr2 < m_rodata_start || addr2 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable(addr2, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr2);
 		}
 
@@ -68,7 +68,7 @@ namespace loongarch
 
 	void Memory::copy_into_arena_unsafe(address_t dest, const void* src, size_t len)
 	{
-		if (LA_UNLIKELY(dest + len >= m_arena_size)) {
+		if (LA_UNLIKELY(dest > m_arena_size || len > m_arena_size - dest)) {
 			throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 		}
 		std::memcpy(&m_arena[dest], src, len);
-- 
2.43.0


From 970dd84e6811e7a0bd6942712459f4712749469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 02/44] fix: bound symbol tables, symbol names and .text by the
 ELF image

Section offset + size was computed with wrap-around, and symbol names were
read until a zero byte that the string table need not contain.
---
 lib/libloong/elf_loader.cpp |  3 ++-
 lib/libloong/memory.cpp     | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 5fa7e69..b2f653c 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -235,7 +235,8 @@ void Memory::binary_loader(const MachineOptions& options)
 					const address_t seg_end = phdr->vaddr + phdr->filesz;
 					const address_t text_end = text_bounds.start + text_bounds.size;
 
-					if (text_bounds.start >= seg_start && text_end <= seg_end) {
+					if (text_bounds.start >= seg_start && text_end <= seg_end &&
+						text_end >= text_bounds.start) {
 						exec_vaddr = text_bounds.start;
 						exec_size  = text_bounds.size & ~size_t(3); // Align to instruction boundary
 						file_offset = phdr->offset + (text_bounds.start - seg_start);
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 00f38b8..cf4d4f6 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -193,8 +193,8 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
                                     const MachineOptions& options)
 {
 	// Validate section offsets and sizes
-	if (symtab->offset + symtab->size > m_binary.size() ||
-	    strtab->offset + strtab->size > m_binary.size()) {
+	if (symtab->offset > m_binary.size() || symtab->size > m_binary.size() - symtab->offset ||
+	    strtab->offset > m_binary.size() || strtab->size > m_binary.size() - strtab->offset) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Warning: Invalid symbol or string table section\n");
 		}
@@ -214,11 +214,13 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
 			if (sym.name + 1 < strtab->size && sym.name + 1 > sym.name) {
 				const char* name = string_table + sym.name;
 				if (name[0] != '\0') {
-					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size), name});
+					// The string table is not guaranteed to be zero-terminated
+					const size_t name_len = ::strnlen(name, strtab->size - sym.name);
+					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size), std::string(name, name_len)});
 
 					if (false && options.verbose_loader) {
 						fprintf(stderr, "Symbol: 0x%lx %s (size=%lu)\n",
-							(unsigned long)sym.value, name, (unsigned long)sym.size);
+							(unsigned long)sym.value, m_symbols.back().name.c_str(), (unsigned long)sym.size);
 					}
 				}
 			}
-- 
2.43.0


From e80504d80a56a7e612f7b3b6ef9f29fff77834b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 03/44] fix: reject programs whose writable data starts past
 the arena

The arena can be smaller than memory_max (custom arena minus the SIMD slack,
masked memory), in which case the cached writable bound wrapped around and
made every address writable.
---
 lib/libloong/elf_loader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index b2f653c..82bdece 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -181,6 +181,11 @@ void Memory::binary_loader(const MachineOptions& options)
 	} else {
 		this->allocate_arena(options.memory_max);
 	}
+	// The usable arena can be smaller than memory_max (custom arena, masked memory)
+	if (this->m_data_start > this->m_arena_size) {
+		throw MachineException(OUT_OF_MEMORY,
+			"Program does not fit in the memory arena", this->m_data_start);
+	}
 
 	if (options.verbose_loader) {
 		const size_t arena_size = options.memory_max - this->m_heap_address;
-- 
2.43.0


From 715aacfc852d052a6c6e92f9d796fa290443bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 04/44] fix: reject arena sizes whose over-allocation wraps
 around

allocate_custom_arena(SIZE_MAX) mapped 63 bytes and recorded SIZE_MAX as the
arena size, so every guest access was considered in bounds.
---
 lib/libloong/memory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index cf4d4f6..e609968 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -60,6 +60,9 @@ void Memory::allocate_arena(size_t size)
 	if constexpr (LA_MASKED_MEMORY_BITS) {
 		size = LA_MASKED_MEMORY_SIZE;
 	}
+	if (size > SIZE_MAX - LA_OVER_ALLOCATE_SIZE) {
+		throw MachineException(OUT_OF_MEMORY, "Memory arena too large", size);
+	}
 	if (this->m_arena) free_arena();
 #ifdef __unix__
 	this->m_arena = static_cast<uint8_t*>(mmap(nullptr, size + LA_OVER_ALLOCATE_SIZE,
-- 
2.43.0


From 436a3c6d701b36baa27f5e08e3c0b3fb35e51663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 05/44] fix: deliver a result on every path of the threading
 system calls

---
 lib/libloong/linux/syscalls_threads.cpp | 12 ++++++++++--
 lib/libloong/posix/threads.cpp          |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 641a639..c25738c 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -148,9 +148,17 @@ namespace loongarch
 			auto* thread = machine.threads().get_thread(tid);
 			if (thread != nullptr) {
 				// If the signal is unhandled, exit the thread
-				if (sig != 0 && machine.sigaction(sig).is_unset()) {
-					if (!thread->exit())
+				if (sig == 0) {
+					machine.set_result(0);
+					return;
+				} else if (machine.sigaction(sig).is_unset()) {
+					const bool exiting_myself = (thread == machine.threads().get_thread());
+					if (!thread->exit()) {
+						// Another thread is running now, unless we ended a different thread
+						if (!exiting_myself)
+							machine.set_result(0);
 						return;
+					}
 				} else {
 					// Jump to signal handler and change to altstack, if set
 					machine.signals().enter(machine, sig);
diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 7ac53cf..7f5c25b 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -174,6 +174,8 @@ bool MultiThreading::suspend_and_yield(long result)
 		wakeup_next();
 		return true;
 	}
+	// No other thread to run: the current thread continues with the result
+	machine.set_result(result);
 	return false;
 }
 
-- 
2.43.0


From ef5fffe43c728fd9e50af97481b0669c7ffd582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 06/44] fix: let futex wake-ups reach waiters without a bitset

---
 lib/libloong/linux/syscalls_threads.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index c25738c..0810594 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -47,7 +47,7 @@ namespace loongarch
 				thprint(machine,
 					"FUTEX: Waiting (blocked)... uaddr=0x%llx val=%d, bitset=%d\n",
 					static_cast<unsigned long long>(addr), val, is_bitset);
-				if (machine.threads().block(0, addr, is_bitset ? val3 : 0x0)) {
+				if (machine.threads().block(0, addr, is_bitset ? val3 : ~0x0)) {
 					return;
 				}
 				// Deadlock - unlock and continue
-- 
2.43.0


From 7e3c32feaa3bf57ee1676e9a36db6b92cd5c2a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 07/44] fix: futex and thread id words are 32 bits wide

---
 lib/libloong/linux/syscalls_threads.cpp | 2 +-
 lib/libloong/posix/threads.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 0810594..423fba7 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -51,7 +51,7 @@ namespace loongarch
 					return;
 				}
 				// Deadlock - unlock and continue
-				machine.memory.write<address_t>(addr, 0);
+				machine.memory.write<uint32_t>(addr, 0);
 				machine.set_result(0);
 				return;
 			}
diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 7f5c25b..3bfea12 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -76,7 +76,7 @@ bool Thread::exit()
 	const int tid = this->tid;
 	// CLONE_CHILD_CLEARTID: set userspace TID value to zero
 	if (this->clear_tid) {
-		threading.machine.memory.write<address_t>(this->clear_tid, 0);
+		threading.machine.memory.write<uint32_t>(this->clear_tid, 0);
 	}
 	// Delete this thread (except main thread)
 	if (tid != 0) {
-- 
2.43.0


From 0dcdb8d26cf95649710730bc4b61a78d03092743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 08/44] fix: drop ended threads from the suspended and blocked
 lists

---
 lib/libloong/posix/threads.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 3bfea12..b45719f 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -162,7 +162,14 @@ Thread* MultiThreading::create(
 
 void MultiThreading::erase_thread(int tid)
 {
-	m_threads.erase(tid);
+	auto it = m_threads.find(tid);
+	if (it == m_threads.end())
+		return;
+	// Forget the thread in every list before it is destroyed
+	Thread* thread = &it->second;
+	m_suspended.erase(std::remove(m_suspended.begin(), m_suspended.end(), thread), m_suspended.end());
+	m_blocked.erase(std::remove(m_blocked.begin(), m_blocked.end(), thread), m_blocked.end());
+	m_threads.erase(it);
 }
 
 bool MultiThreading::suspend_and_yield(long result)
-- 
2.43.0


From be5433886c47a0b8af0cbcfb3f733fbc0b9c6a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 09/44] fix: count every instruction of long straight-line
 blocks

---
 lib/libloong/decoder_cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index 9fab1cc..f370e07 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -16,7 +16,7 @@ namespace loongarch
 
 		// Calculate number of instructions in this block (LoongArch = 4 bytes per instruction)
 		// This includes the current (diverging) instruction: block instructions + 1
-		uint8_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
+		uint32_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
 
 		// Bytecode accessors for threaded dispatch
 		uint8_t get_bytecode() const noexcept { return bytecode; }
-- 
2.43.0


From e025080dfa87cd0114f414304bf714fd6e4cd2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 10/44] fix: stx.b of the zero register stores a byte

---
 lib/libloong/threaded_rewriter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 5ce172a..13c0491 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -695,7 +695,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_EXT_W_H: {
-- 
2.43.0


From 11a972892d2fa1e837b99d10b3cbcecba3077c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 11/44] fix: keep the full range of conditional branch offsets

---
 lib/libloong/bytecode_impl.cpp      | 12 ++++++------
 lib/libloong/threaded_bytecodes.hpp | 17 +++++++++--------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index bf048c0..fa0fe96 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -480,7 +480,7 @@ INSTRUCTION(LA64_BC_BEQ, la64_beq)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) == REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.byte_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -490,7 +490,7 @@ INSTRUCTION(LA64_BC_BNE, la64_bne)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) != REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.byte_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -500,7 +500,7 @@ INSTRUCTION(LA64_BC_BLT, la64_blt)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) < (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.byte_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -510,7 +510,7 @@ INSTRUCTION(LA64_BC_BGE, la64_bge)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) >= (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.byte_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -520,7 +520,7 @@ INSTRUCTION(LA64_BC_BLTU, la64_bltu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) < REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.byte_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -530,7 +530,7 @@ INSTRUCTION(LA64_BC_BGEU, la64_bgeu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) >= REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.byte_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index 7d1e6da..bea81e9 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -410,14 +410,12 @@ namespace loongarch
 	union FasterLA64_RI21_Branch {
 		uint32_t whole;
 		struct {
-			uint8_t rj;      // bits [4:0] - register to test (or condition flag for BC*)
-			uint8_t padding; // bits [12:5] - unused, available for future use
-			int16_t offset;  // bits [28:13] - pre-computed offset (sign-extended, already << 2)
+			uint32_t rj    : 8;  // register to test (or condition flag for BC*)
+			int32_t offset : 24; // pre-computed offset (sign-extended, already << 2, 23 bits)
 		};
 		void set_offset(int32_t offs) {
 			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			this->offset = offs;
 		}
 	};
 
@@ -427,12 +425,15 @@ namespace loongarch
 		struct {
 			uint8_t rd;      // bits [4:0] - first register
 			uint8_t rj;      // bits [9:5] - second register
-			int16_t offset;  // bits [25:10] - pre-computed offset (sign-extended, already << 2)
+			int16_t offset;  // bits [25:10] - offset in instructions (sign-extended)
 		};
 		void set_offset(int32_t offs) {
 			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			this->offset = (int16_t)(offs >> 2);
+		}
+		// The offset in bytes, which needs up to 18 bits
+		int32_t byte_offset() const {
+			return (int32_t)this->offset * 4;
 		}
 	};
 
-- 
2.43.0


From e1e4ae7e2f834db152d40abe6e569b3599247186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 12/44] fix: keep the zero register zero

---
 lib/libloong/bytecode_impl.cpp     | 4 ++++
 lib/libloong/cpu.cpp               | 2 ++
 lib/libloong/threaded_rewriter.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index fa0fe96..b57c78e 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1029,6 +1029,8 @@ INSTRUCTION(LA64_BC_FUNCTION, execute_decoded_function)
 	const auto handler = DECODER().get_handler();
 	//printf("Slow-path pc=0x%lx for instr %08X\n", RECONSTRUCT_PC(), DECODER().instr);
 	handler(CPU(), la_instruction{DECODER().instr});
+	// Handlers may write to the zero register
+	REG(REG_ZERO) = 0;
 	NEXT_INSTR();
 }
 INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
@@ -1036,6 +1038,8 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	// Call the cached handler for this instruction
 	const auto handler = DECODER().get_extended_handler();
 	handler(CPU(), la_instruction{DECODER().instr});
+	// Handlers may write to the zero register
+	REG(REG_ZERO) = 0;
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index 83f6398..e85cf5e 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -70,6 +70,8 @@ namespace loongarch
 	{
 		const auto& handler = decode(instr);
 		handler.handler(*this, instr);
+		// Handlers may write to the zero register
+		m_regs.get(REG_ZERO) = 0;
 	}
 
 	bool CPU::is_executable(address_t addr) const noexcept
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 13c0491..68f1659 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -227,6 +227,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_PCALAU12I:
 		case LA64_BC_LU12I_W:
 			// No optimization needed - use original instruction bits
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_LDPTR_D: {
 			auto fi = *(FasterLA64_RI14 *)&instruction_bits;
@@ -676,9 +677,11 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		} break;
 		case LA64_BC_PCADDU12I:
 			// PCADDU12I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_PCADDU18I:
 			// PCADDU18I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_ANDN: {
 			// ANDN rd, rj, rk - uses R3 format
-- 
2.43.0


From cdefa8fb588f1172644b377edecf33449e07bec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 13/44] fix: bit string instructions handle the full register
 width

---
 lib/libloong/bytecode_impl.cpp |  9 +++------
 lib/libloong/la_instr_impl.hpp | 12 ++++--------
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index b57c78e..4642c10 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -193,8 +193,7 @@ INSTRUCTION(LA64_BC_BSTRPICK_D, la64_bstrpick_d)
 {
 	auto fi = *(FasterLA64_BitField *)&DECODER().instr;
 	const address_t src = REG(fi.rj);
-	const uint32_t width = fi.msbd - fi.lsbd + 1;
-	const address_t mask = (1ULL << width) - 1;
+	const address_t mask = UINT64_MAX >> (63 - ((fi.msbd - fi.lsbd) & 63));
 	REG(fi.rd) = (src >> fi.lsbd) & mask;
 	NEXT_INSTR();
 }
@@ -307,8 +306,7 @@ INSTRUCTION(LA64_BC_BSTRPICK_W, la64_bstrpick_w)
 {
 	auto fi = *(FasterLA64_BitFieldW *)&DECODER().instr;
 	const uint32_t src = (uint32_t)REG(fi.rj);
-	const uint32_t width = fi.msbw - fi.lsbw + 1;
-	const uint32_t mask = (1U << width) - 1;
+	const uint32_t mask = UINT32_MAX >> (31 - ((fi.msbw - fi.lsbw) & 31));
 	REG(fi.rd) = (src >> fi.lsbw) & mask;
 	NEXT_INSTR();
 }
@@ -418,8 +416,7 @@ INSTRUCTION(LA64_BC_BSTRINS_D, la64_bstrins_d)
 
 	// Valid when msbd >= lsbd
 	if (fi.msbd >= fi.lsbd) {
-		uint32_t width = fi.msbd - fi.lsbd + 1;
-		uint64_t mask = ((1ULL << width) - 1) << fi.lsbd;
+		uint64_t mask = (UINT64_MAX >> (63 - (fi.msbd - fi.lsbd))) << fi.lsbd;
 		uint64_t bits = (src << fi.lsbd) & mask;
 		REG(fi.rd) = (dst & ~mask) | bits;
 	}
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index f170aff..b45b7c1 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -591,8 +591,7 @@ struct InstrImpl {
 
 		// Valid when msbd >= lsbd
 		if (msbd >= lsbd) {
-			uint32_t width = msbd - lsbd + 1;
-			uint64_t mask = ((1ULL << width) - 1) << lsbd;
+			uint64_t mask = (UINT64_MAX >> (63 - (msbd - lsbd))) << lsbd;
 			uint64_t bits = (src << lsbd) & mask;
 			cpu.reg(instr.ri16.rd) = (dst & ~mask) | bits;
 		}
@@ -605,8 +604,7 @@ struct InstrImpl {
 		uint64_t src = cpu.reg(instr.ri16.rj);
 
 		// Extract the bit field
-		uint32_t width = msbd - lsbd + 1;
-		uint64_t mask = (1ULL << width) - 1;
+		uint64_t mask = UINT64_MAX >> (63 - ((msbd - lsbd) & 63));
 		uint64_t result = (src >> lsbd) & mask;
 		cpu.reg(instr.ri16.rd) = result;
 	}
@@ -621,8 +619,7 @@ struct InstrImpl {
 
 		// Valid when msbw >= lsbw
 		if (msbw >= lsbw) {
-			uint32_t width = msbw - lsbw + 1;
-			uint32_t mask = ((1U << width) - 1) << lsbw;
+			uint32_t mask = (UINT32_MAX >> (31 - (msbw - lsbw))) << lsbw;
 			uint32_t bits = (src << lsbw) & mask;
 			uint32_t result = (dst & ~mask) | bits;
 			// Sign-extend to 64 bits
@@ -638,8 +635,7 @@ struct InstrImpl {
 		uint32_t src = (uint32_t)cpu.reg(instr.ri16.rj);
 
 		// Extract the bit field
-		uint32_t width = msbw - lsbw + 1;
-		uint32_t mask = (1U << width) - 1;
+		uint32_t mask = UINT32_MAX >> (31 - ((msbw - lsbw) & 31));
 		uint32_t result = (src >> lsbw) & mask;
 		cpu.reg(instr.ri16.rd) = (int32_t)result;
 	}
-- 
2.43.0


From 15c8a465ca0d5877f61451dd3bd7c2f75964901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 14/44] fix: signed division overflow does not trap on the host

---
 lib/libloong/la_instr_impl.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index b45b7c1..75f1206 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -62,13 +62,15 @@ struct InstrImpl {
 	static void DIV_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a / b) : 0;
+		// INT32_MIN / -1 overflows, and the result is INT32_MIN
+		cpu.reg(instr.r3.rd) = (b == -1) ? static_cast<int64_t>(static_cast<int32_t>(0u - static_cast<uint32_t>(a))) : (b != 0) ? static_cast<int64_t>(a / b) : 0;
 	}
 
 	static void MOD_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a % b) : 0;
+		// INT32_MIN % -1 overflows, and the result is 0
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? static_cast<int64_t>(a % b) : 0;
 	}
 
 	static void DIV_WU(cpu_t& cpu, la_instruction instr) {
@@ -86,13 +88,15 @@ struct InstrImpl {
 	static void DIV_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a / b) : 0;
+		// INT64_MIN / -1 overflows, and the result is INT64_MIN
+		cpu.reg(instr.r3.rd) = (b == -1) ? 0 - static_cast<uint64_t>(a) : (b != 0) ? static_cast<uint64_t>(a / b) : 0;
 	}
 
 	static void MOD_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a % b) : 0;
+		// INT64_MIN % -1 overflows, and the result is 0
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? (a % b) : 0;
 	}
 
 	static void DIV_DU(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 0853c4231e8d4fd2d5b08922f0267eadefde81ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 15/44] fix: ori with a zero destination never stops the
 machine

---
 lib/libloong/decoder_cache.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 6f0b101..763d3f2 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -63,16 +63,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				}
 				return LA64_BC_OR;
 			}
-		case InstrId::ORI:
-			// MOVE is ORI with imm==0
-			{
-				const uint32_t imm = instr & 0xFFF;
-				if (imm == 0) {
-					return LA64_BC_MOVE;
-				}
-				return LA64_BC_ORI;
-			}
-
+		case InstrId::ORI: return LA64_BC_ORI;
 		case InstrId::LD_D: return LA64_BC_LD_D;
 		case InstrId::ST_D: return LA64_BC_ST_D;
 		case InstrId::ADDI_W: return LA64_BC_ADDI_W;
-- 
2.43.0


From 2aad2de032b67bae5b84783988ccfa9f79baa516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 16/44] fix: blocks end exactly at the instructions that leave
 them

---
 lib/libloong/decoder_cache.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 763d3f2..743522b 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -31,9 +31,10 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			return true;
 		}
 
-		// System calls (exact match required)
-		if (instr == Opcode::SYSCALL) return true;
-		if (instr == Opcode::BREAK) return true;
+		// System calls, with any code (as they are decoded)
+		// NOTE: BREAK is executed by a generic handler, which falls through
+		// to the next instruction, so it must not end the block
+		if ((instr & 0xFFFFFC00) == Opcode::SYSCALL) return true;
 
 		return false;
 	}
-- 
2.43.0


From c1d87063de535d5fcc134e948e00e63125e42ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 17/44] fix: the stop marker ends its block

---
 lib/libloong/decoder_cache.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 743522b..588870a 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -36,6 +36,9 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		// to the next instruction, so it must not end the block
 		if ((instr & 0xFFFFFC00) == Opcode::SYSCALL) return true;
 
+		// The stop marker (move zero, zero) leaves the dispatch loop here
+		if (instr == Opcode::OR) return true;
+
 		return false;
 	}
 
-- 
2.43.0


From 09ead00472efd05ae8fe0b0395fbb8f2504a86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 18/44] fix: indexed and ptr loads into the zero register agree
 with the other loads

---
 lib/libloong/la_instr_impl.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 75f1206..b19a88a 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -344,14 +344,16 @@ struct InstrImpl {
 		int64_t offset = InstructionHelpers::sign_extend_14(instr.ri14.imm) << 2;
 		auto addr = cpu.reg(instr.ri14.rj) + offset;
 		// Sign-extend the 32-bit value to 64 bits
-		cpu.reg(instr.ri14.rd) = (int64_t)(int32_t)cpu.memory().template read<uint32_t, true>(addr);
+		if (instr.ri14.rd != 0)
+			cpu.reg(instr.ri14.rd) = (int64_t)(int32_t)cpu.memory().template read<uint32_t, true>(addr);
 	}
 
 	static void LDPTR_D(cpu_t& cpu, la_instruction instr) {
 		// LDPTR.D uses 14-bit signed offset << 2 (word-aligned)
 		int64_t offset = InstructionHelpers::sign_extend_14(instr.ri14.imm) << 2;
 		auto addr = cpu.reg(instr.ri14.rj) + offset;
-		cpu.reg(instr.ri14.rd) = cpu.memory().template read<uint64_t, true>(addr);
+		if (instr.ri14.rd != 0)
+			cpu.reg(instr.ri14.rd) = cpu.memory().template read<uint64_t, true>(addr);
 	}
 
 	static void STPTR_W(cpu_t& cpu, la_instruction instr) {
@@ -680,32 +682,38 @@ struct InstrImpl {
 
 	static void LDX_B(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.r3.rj) + cpu.reg(instr.r3.rk);
-		cpu.reg(instr.r3.rd) = (int64_t)cpu.memory().template read<int8_t, true>(addr);
+		if (instr.r3.rd != 0)
+			cpu.reg(instr.r3.rd) = (int64_t)cpu.memory().template read<int8_t, true>(addr);
 	}
 
 	static void LDX_H(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.r3.rj) + cpu.reg(instr.r3.rk);
-		cpu.reg(instr.r3.rd) = (int64_t)cpu.memory().template read<int16_t, true>(addr);
+		if (instr.r3.rd != 0)
+			cpu.reg(instr.r3.rd) = (int64_t)cpu.memory().template read<int16_t, true>(addr);
 	}
 
 	static void LDX_W(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.r3.rj) + cpu.reg(instr.r3.rk);
-		cpu.reg(instr.r3.rd) = (int64_t)cpu.memory().template read<int32_t, true>(addr);
+		if (instr.r3.rd != 0)
+			cpu.reg(instr.r3.rd) = (int64_t)cpu.memory().template read<int32_t, true>(addr);
 	}
 
 	static void LDX_D(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.r3.rj) + cpu.reg(instr.r3.rk);
-		cpu.reg(instr.r3.rd) = cpu.memory().template read<int64_t, true>(addr);
+		if (instr.r3.rd != 0)
+			cpu.reg(instr.r3.rd) = cpu.memory().template read<int64_t, true>(addr);
 	}
 
 	static void LDX_BU(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.r3.rj) + cpu.reg(instr.r3.rk);
-		cpu.reg(instr.r3.rd) = (uint64_t)cpu.memory().template read<uint8_t, true>(addr);
+		if (instr.r3.rd != 0)
+			cpu.reg(instr.r3.rd) = (uint64_t)cpu.memory().template read<uint8_t, true>(addr);
 	}
 
 	static void LDX_HU(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.r3.rj) + cpu.reg(instr.r3.rk);
-		cpu.reg(instr.r3.rd) = (uint64_t)cpu.memory().template read<uint16_t, true>(addr);
+		if (instr.r3.rd != 0)
+			cpu.reg(instr.r3.rd) = (uint64_t)cpu.memory().template read<uint16_t, true>(addr);
 	}
 
 	static void LDX_WU(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From f633ebffdd12c9bf5e8c387731ad93001d701f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 19/44] fix: pcaddu18i handler keeps the upper bits of its
 offset

---
 lib/libloong/la_instr_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index b19a88a..cd72623 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -576,7 +576,7 @@ struct InstrImpl {
 
 	static void PCADDU18I(cpu_t& cpu, la_instruction instr) {
 		int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-		int64_t offset = (int64_t)(si20 << 18);
+		int64_t offset = (int64_t)si20 << 18;
 		cpu.reg(instr.ri20.rd) = cpu.pc() + offset;
 	}
 
-- 
2.43.0


From d37a1a494704eb0cf064ad808da5642999702ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 20/44] fix: bceqz and bcnez handlers use the full branch
 offset

---
 lib/libloong/la_instr_impl.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index cd72623..01a304c 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3037,11 +3037,7 @@ struct InstrImpl {
 		// BCNEZ: Branch if condition flag is not equal to zero
 		// Format: 0x48xxxxxx
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		// Sign extend
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		const auto offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) != 0) {
 			cpu.increment_pc(offset-4);
@@ -3051,10 +3047,7 @@ struct InstrImpl {
 	static void BCEQZ(cpu_t& cpu, la_instruction instr) {
 		// BCEQZ: Branch if condition flag equals zero
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		const auto offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) == 0) {
 			cpu.increment_pc(offset-4);
-- 
2.43.0


From dc22b39d46810972fd93e67d1b27d2558ef74d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 21/44] fix: sltui compares against its sign-extended immediate

---
 lib/libloong/threaded_rewriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 68f1659..1058fa2 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -639,12 +639,12 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			return fi.whole;
 		} break;
 		case LA64_BC_SLTUI: {
-			// SLTUI rd, rj, imm12 - uses RI12 format with zero-extended immediate
+			// SLTUI rd, rj, imm12 - uses RI12 format with sign-extended immediate
 			auto fi = *(FasterLA64_RI12 *)&instruction_bits;
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
-			// SLTUI uses zero-extended immediate for unsigned comparison
-			fi.imm = original.ri12.imm & 0xFFF;
+			// SLTUI compares unsigned against the sign-extended immediate
+			fi.set_imm(original.ri12.imm);
 			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
-- 
2.43.0


From adfc49e0ee36bdb15937d32b8bef62f0c5c8ab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 22/44] fix: specialised LSX loads and arithmetic clear the
 upper half of the register

---
 lib/libloong/bytecode_impl.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 4642c10..50ef0cd 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -554,8 +554,11 @@ INSTRUCTION(LA64_BC_VLD, la64_vld)
 {
 	auto fi = *(FasterLA64_RI12 *)&DECODER().instr;
 	const auto addr = REG(fi.rj) + fi.imm;
-	auto& vr = REGISTERS().getvr128low(fi.rd);
-	vr = MACHINE().memory.template read<remove_cvref_t<decltype(vr)>, true>(addr);
+	auto& vr = REGISTERS().getvr(fi.rd);
+	vr.lsx_low = MACHINE().memory.template read<remove_cvref_t<decltype(vr.lsx_low)>, true>(addr);
+	// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
+	vr.du[2] = 0;
+	vr.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -574,8 +577,11 @@ INSTRUCTION(LA64_BC_VLDX, la64_vldx)
 {
 	auto fi = *(FasterLA64_R3 *)&DECODER().instr;
 	const auto addr = REG(fi.rj) + REG(fi.rk);
-	auto& vr = REGISTERS().getvr128low(fi.rd);
-	vr = MACHINE().memory.template read<remove_cvref_t<decltype(vr)>, true>(addr);
+	auto& vr = REGISTERS().getvr(fi.rd);
+	vr.lsx_low = MACHINE().memory.template read<remove_cvref_t<decltype(vr.lsx_low)>, true>(addr);
+	// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
+	vr.du[2] = 0;
+	vr.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -599,6 +605,9 @@ INSTRUCTION(LA64_BC_VFADD_D, la64_vfadd_d)
 	// VFADD.D operates on 2 double-precision elements
 	vrd.df[0] = vrj.df[0] + vrk.df[0];
 	vrd.df[1] = vrj.df[1] + vrk.df[1];
+	// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
+	vrd.du[2] = 0;
+	vrd.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -614,6 +623,9 @@ INSTRUCTION(LA64_BC_VFMADD_D, la64_vfmadd_d)
 
 	dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
 	dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+	// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
+	dst.du[2] = 0;
+	dst.du[3] = 0;
 	NEXT_INSTR();
 }
 
-- 
2.43.0


From e85f4e38797d09a36a3bad5dfe7602db79dd137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 23/44] fix: bstrpick.w of a full word sign-extends its result

---
 lib/libloong/bytecode_impl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 50ef0cd..cb10d62 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -301,13 +301,13 @@ INSTRUCTION(LA64_BC_STX_D, la64_stx_d)
 	NEXT_INSTR();
 }
 
-// LA64_BC_BSTRPICK_W: Bit string pick word (rd = extract bits[msbw:lsbw] from rj, zero-extend)
+// LA64_BC_BSTRPICK_W: Bit string pick word (rd = extract bits[msbw:lsbw] from rj, sign-extend)
 INSTRUCTION(LA64_BC_BSTRPICK_W, la64_bstrpick_w)
 {
 	auto fi = *(FasterLA64_BitFieldW *)&DECODER().instr;
 	const uint32_t src = (uint32_t)REG(fi.rj);
 	const uint32_t mask = UINT32_MAX >> (31 - ((fi.msbw - fi.lsbw) & 31));
-	REG(fi.rd) = (src >> fi.lsbw) & mask;
+	REG(fi.rd) = (int64_t)(int32_t)((src >> fi.lsbw) & mask);
 	NEXT_INSTR();
 }
 
-- 
2.43.0


From 80f4eefb708979be140ebb870393c788110a4e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 24/44] fix: the translator's bit string masks cover the full
 register width

---
 lib/libloong/tr_emit.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 02af911..8025ef8 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1377,8 +1377,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbw = (instr.whole >> 16) & 0x1F;
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
 				if (msbw >= lsbw) {
-					uint32_t width = msbw - lsbw + 1;
-					uint32_t mask = ((1U << width) - 1) << lsbw;  // Precomputed at translation time
+					uint32_t mask = (UINT32_MAX >> (31 - (msbw - lsbw))) << lsbw;  // Precomputed at translation time
 					uint32_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(((uint32_t)" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "U) | (((uint32_t)" +
@@ -1392,8 +1391,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbd = (instr.whole >> 16) & 0x3F;
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
 				if (msbd >= lsbd) {
-					uint32_t width = msbd - lsbd + 1;
-					uint64_t mask = ((1ULL << width) - 1) << lsbd;  // Precomputed at translation time
+					uint64_t mask = (UINT64_MAX >> (63 - (msbd - lsbd))) << lsbd;  // Precomputed at translation time
 					uint64_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "ULL) | ((" +
@@ -1406,8 +1404,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.ri16.rd != 0) {
 				uint32_t msbw = (instr.whole >> 16) & 0x1F;
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
-				uint32_t width = msbw - lsbw + 1;
-				uint32_t mask = (1U << width) - 1;  // Precomputed at translation time
+				uint32_t mask = UINT32_MAX >> (31 - ((msbw - lsbw) & 31));  // Precomputed at translation time
 				if (lsbw == 0) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(" +
 						emit.reg(instr.ri16.rj) + " & " + std::to_string(mask) + "U);");
@@ -1422,8 +1419,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.ri16.rd != 0) {
 				uint32_t msbd = (instr.whole >> 16) & 0x3F;
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
-				uint32_t width = msbd - lsbd + 1;
-				uint64_t mask = (1ULL << width) - 1;  // Precomputed at translation time
+				uint64_t mask = UINT64_MAX >> (63 - ((msbd - lsbd) & 63));  // Precomputed at translation time
 				if (lsbd == 0 && instr.ri16.rd == instr.ri16.rj) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " &= " +
 						std::to_string(mask) + "ULL;");
-- 
2.43.0


From af2f2bc734ab01ff87019b17d259b79edbff3ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 25/44] fix: AMXOR is decoded at its own encoding only

It was decoded for every word in 0x387xxxxx, which are AMMAX/AMMIN_DB.WU/DU,
FLDGT/FLDLE/FSTGT/FSTLE, LDGT/LDLE and STGT/STLE, and never for AMXOR itself.
---
 lib/libloong/la64.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 291f6fa..7658e06 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -916,14 +916,11 @@ namespace loongarch
 						return is_64bit ? DECODED_INSTR(AMAND_D) : DECODED_INSTR(AMAND_W);
 					case 3: case 12: // AMOR (guessed)
 						return is_64bit ? DECODED_INSTR(AMOR_D) : DECODED_INSTR(AMOR_W);
-					// TODO: Verify AMXOR, AMMAX, AMMIN encodings when encountered
+					case 4: case 13: // AMXOR
+						return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
+					// TODO: Verify AMMAX, AMMIN encodings when encountered
 				}
 			}
-			// AMXOR: bits [31:20] = 0x387
-			if ((instr.whole & 0xFFF00000) == 0x38700000) {
-				bool is_64bit = ((instr.whole >> 15) & 1);
-				return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
-			}
 			break;
 		case 0x0B: // VLD / VST / XVLD / XVST instructions (op6 = 0x0B for 0x2Cxxxxxx)
 			// Example VLD: 2c0041a2
-- 
2.43.0


From 0af40c14ae54d131c6c23b59d32771c32a1ecca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 26/44] fix: decode ROTRI.D at its own encoding, and ALSL.WU
 not as ALSL.W

ROTRI.D was decoded at the encoding of CRC.W.B.W and CRC.W.H.W and not at its own.
---
 lib/libloong/la64.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 7658e06..70bbc82 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -537,8 +537,8 @@ namespace loongarch
 				if (op16 == 0x0045) return DECODED_INSTR(SRLI_D);
 				if (op16 == 0x0048) return DECODED_INSTR(SRAI_W);
 				if (op16 == 0x0049) return DECODED_INSTR(SRAI_D);
-				// ROTRI.D uses bits[31:16] for opcode (16-bit opcode = 0x0024)
-				if (op16 == 0x0024) return DECODED_INSTR(ROTRI_D);
+				// ROTRI.D uses bits[31:16] for opcode (16-bit opcode = 0x004D)
+				if (op16 == 0x004D) return DECODED_INSTR(ROTRI_D);
 			}
 
 			// ROTRI.W: bits[31:15] = 0x00099 (format DJUk5)
@@ -548,9 +548,10 @@ namespace loongarch
 				if (op15 == 0x00099) return DECODED_INSTR(ROTRI_W);
 			}
 
-			// ALSL.W and ALSL.D use bits [31:18] with sa2 in bits [16:15]
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
+			// ALSL.W and ALSL.D use bits [31:17] with sa2 in bits [16:15]
+			// (0x00060000 is ALSL.WU)
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
 
 			// Immediate instructions (op22 match)
 			if (op22 == (Opcode::ADDI_W & 0xFFC00000)) return DECODED_INSTR(ADDI_W);
-- 
2.43.0


From 314c0c8b7b76bd67d9a5c5a17c3f940e9dd6aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 27/44] fix: LSX instructions are decoded at their own
 encodings

VPCNT, VREPLVEI.D, VFTINTRZ.W.S/L.D, VILVH.D, VSLLI.D, VBITREVI.D,
VSETALLNEZ.B and VPICKVE2GR tested too few, or the wrong, opcode bits and
so were executed for other instructions or not for all of their operands.
---
 lib/libloong/la64.cpp | 54 +++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 70bbc82..c5209b7 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -951,8 +951,8 @@ namespace loongarch
 				// VORI.B: Vector OR immediate (byte) - bits[31:18] = 0x1CF5
 				if ((instr.whole >> 18) == 0x1CF5) return DECODED_INSTR(VORI_B);
 				// VSLLI: Vector Shift Left Logical Immediate - bits[31:15] identify size
-				// VBITREVI.D: Vector Bit Reverse Immediate (double) - bits[31:15] = 0xE660
-				// VPCNT: Vector Population Count - bits[31:15] = 0xE538, bits[14:10] select size
+				// VBITREVI.D: Vector Bit Reverse Immediate (double) - bits[31:16] = 0x7319
+				// VPCNT: Vector Population Count - bits[31:12] = 0x729C2, bits[11:10] select size
 				uint32_t bits15 = instr.whole >> 15;
 				if (bits15 == 0xE658) {
 					// vslli.b and vslli.h both have bits[31:15] = 0xe658, differentiate by bit 14
@@ -961,9 +961,12 @@ namespace loongarch
 					else return DECODED_INSTR(VSLLI_H);
 				}
 				if (bits15 == 0xE659) return DECODED_INSTR(VSLLI_W);
-				if (bits15 == 0xE65A) return DECODED_INSTR(VSLLI_D);
-				if (bits15 == 0xE660) return DECODED_INSTR(VBITREVI_D);
-				if (bits15 == 0xE538) {
+				// vslli.d has a 6-bit shift amount that extends to bit 15
+				if (top16 == 0x732D) return DECODED_INSTR(VSLLI_D);
+				// vbitrevi.d: bits[31:16] = 0x7319
+				if (top16 == 0x7319) return DECODED_INSTR(VBITREVI_D);
+				// bits[14:12] = 2 (0: vclo, 1: vclz, 3: vneg, 4-6: vmsk*)
+				if ((instr.whole >> 12) == 0x729C2) {
 					uint32_t size = (instr.whole >> 10) & 0x3;
 					if (size == 0) return DECODED_INSTR(VPCNT_B);
 					if (size == 1) return DECODED_INSTR(VPCNT_H);
@@ -1016,8 +1019,8 @@ namespace loongarch
 					return DECODED_INSTR(VILVL_D);
 				}
 				// VILVH.D: Vector Interleave High Double-word
-				// bits[31:15] = 0xE23F
-				if ((instr.whole >> 15) == 0xE23F) {
+				// bits[31:15] = 0xE23B
+				if ((instr.whole >> 15) == 0xE23B) {
 					return DECODED_INSTR(VILVH_D);
 				}
 				// VPICKEV.W: Vector Pick Even Word
@@ -1026,34 +1029,31 @@ namespace loongarch
 					return DECODED_INSTR(VPICKEV_W);
 				}
 				// VPICKVE2GR instructions: signed (0x72EF) and unsigned (0x72F3)
-				// bits[15:12] determine size: 0x8=B, 0xC=H, 0xE=W, 0xF=D
+				// bits[15:11] determine size: 10xxx=B, 110xx=H, 1110x=W, 11110=D
 				if (top16 == 0x72EF) {
-					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_B);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_H);
-					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_W);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_D);
+					uint32_t subop = (instr.whole >> 11) & 0x1F;
+					if ((subop >> 3) == 0x2) return DECODED_INSTR(VPICKVE2GR_B);
+					if ((subop >> 2) == 0x6) return DECODED_INSTR(VPICKVE2GR_H);
+					if ((subop >> 1) == 0xE) return DECODED_INSTR(VPICKVE2GR_W);
+					if (subop == 0x1E) return DECODED_INSTR(VPICKVE2GR_D);
 				}
 				if (top16 == 0x72F3) {
-					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_BU);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_HU);
-					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_WU);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_DU);
-				}
-				// VREPLVEI.D: 0x72F7xxxx (Vector Replicate Vector Element Immediate - double)
-				if (top16 == 0x72F7) {
+					uint32_t subop = (instr.whole >> 11) & 0x1F;
+					if ((subop >> 3) == 0x2) return DECODED_INSTR(VPICKVE2GR_BU);
+					if ((subop >> 2) == 0x6) return DECODED_INSTR(VPICKVE2GR_HU);
+					if ((subop >> 1) == 0xE) return DECODED_INSTR(VPICKVE2GR_WU);
+					if (subop == 0x1E) return DECODED_INSTR(VPICKVE2GR_DU);
+				}
+				// VREPLVEI.D: bits[31:11] = 0xE5EFE (Vector Replicate Vector Element Immediate - double)
+				if ((instr.whole >> 11) == 0xE5EFE) {
 					return DECODED_INSTR(VREPLVEI_D);
 				}
 				if (top16 == 0x729C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x28) return DECODED_INSTR(VSETANYEQZ_B);
+					if (subop == 0x2C) return DECODED_INSTR(VSETALLNEZ_B);
 					if (subop == 0x18) return DECODED_INSTR(VMSKNZ_B);
 				}
-				if (top16 == 0x729D) {
-					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x18) return DECODED_INSTR(VSETALLNEZ_B);
-				}
 				// VREPLGR2VR: 0x729F0xxx
 				// .B (subop=0x00), .H (subop=0x01), .W (subop=0x02), .D (subop=0x03)
 				if (top16 == 0x729F) {
@@ -1196,8 +1196,8 @@ namespace loongarch
 				if ((instr.whole >> 15) == 0xE534) {
 					return DECODED_INSTR(VFRSTPI_B);
 				}
-				// VFTINTRZ.W.S / VFTINTRZ.L.D: bits[31:15] = 0xE53C
-				if ((instr.whole >> 15) == 0xE53C) {
+				// VFTINTRZ.W.S / VFTINTRZ.L.D: bits[31:11] = 0xE53C9
+				if ((instr.whole >> 11) == 0xE53C9) {
 					// Differentiate by bit 10
 					if ((instr.whole >> 10) & 1) {
 						return DECODED_INSTR(VFTINTRZ_L_D);
-- 
2.43.0


From 3c3c9e3c20f8c4a4144718b9bc625dd8b9d861b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:49 +0000
Subject: [PATCH 28/44] fix: LASX instructions are decoded at their own
 encodings

XVLDI swallowed XVANDI/XVBITSELI/XVEXTRINS/XVNORI/XVSHUF4I/XVPERMI, XVPERMI.D
was decoded for XVREPLVE0, XVPICKEV.D for XVPICKVE, XVPACKOD.D for part of
XVBITREVI.D, XVMAX.BU for XVMIN.HU, XVSETEQZ.V for XVSETALLNEZ.B, XVILVH.D for
XVPICKEV.D and XVPICKVE2GR.W for XVPICKVE2GR.D, and several were never decoded.
---
 lib/libloong/la64.cpp | 83 +++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 43 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index c5209b7..9976576 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -1234,25 +1234,24 @@ namespace loongarch
 
 				// XVMSKNZ.B: 0x769C6xxx (bits[31:16] = 0x769C, bits[15:10] = 0x18)
 				// XVSETANYEQZ.B: 0x769CAxx (bits[31:16] = 0x769C, bits[15:10] = 0x28)
-				// XVSETEQZ.V: 0x769CBxxx (bits[31:16] = 0x769C, bits[15:10] = 0x2C)
+				// XVSETEQZ.V: 0x769C98xx (bits[31:16] = 0x769C, bits[15:10] = 0x26)
 				if (top16 == 0x769C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x18) return DECODED_INSTR(XVMSKNZ_B);
 					if (subop == 0x28) return DECODED_INSTR(XVSETANYEQZ_B);
-					if (subop == 0x2C) return DECODED_INSTR(XVSETEQZ_V);
+					if (subop == 0x26) return DECODED_INSTR(XVSETEQZ_V);
 				}
 				// XVREPLGR2VR.B: 0x769F0xxx (bits[31:16] = 0x769F, bits[15:10] = 0x00)
 				if (top16 == 0x769F) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x00) return DECODED_INSTR(XVREPLGR2VR_B);
 				}
-				// XVPICKVE.W: 0x7703Dxxx (bits[31:16] = 0x7703, bits[15:10] = 0x34)
-				if (top16 == 0x7703) {
-					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x34) return DECODED_INSTR(XVPICKVE_W);
+				// XVPICKVE.W: bits[31:13] = 0x3B81E, element index in bits[12:10]
+				if ((instr.whole >> 13) == 0x3B81E) {
+					return DECODED_INSTR(XVPICKVE_W);
 				}
-				// XVSEQ.B: bits[31:15] = 0xEE00
-				if ((instr.whole >> 15) == 0xEE00) {
+				// XVSEQ.B: bits[31:15] = 0xE800
+				if ((instr.whole >> 15) == 0xE800) {
 					return DECODED_INSTR(XVSEQ_B);
 				}
 				// XVXOR.V: bits[31:15] = 0xEA4E
@@ -1283,13 +1282,13 @@ namespace loongarch
 				if ((instr.whole >> 15) == 0xE8EC) {
 					return DECODED_INSTR(XVMIN_BU);
 				}
-				// XVMAX.BU: bits[31:15] = 0xE8ED
-				if ((instr.whole >> 15) == 0xE8ED) {
+				// XVMAX.BU: bits[31:15] = 0xE8E8
+				if ((instr.whole >> 15) == 0xE8E8) {
 					return DECODED_INSTR(XVMAX_BU);
 				}
-				// XVPICKVE2GR.W: bits[31:18] = 0x1DBB (0x76EFxxxx)
+				// XVPICKVE2GR.W: bits[31:13] = 0x3B77E (0x76EFC000)
 				// Pick word element from LASX vector to general register
-				if ((instr.whole >> 18) == 0x1DBB) {
+				if ((instr.whole >> 13) == 0x3B77E) {
 					return DECODED_INSTR(XVPICKVE2GR_W);
 				}
 				// XVPERMI.Q: LASX permute quadword - bits[31:18] = 0x1DFB
@@ -1309,46 +1308,44 @@ namespace loongarch
 				// XVFSUB.D: LASX vector floating-point subtract (double) - bits[31:15] = 0xEA66
 				// Opcode: 0x75330000 >> 15 = 0xEA66
 				if ((instr.whole >> 15) == 0xEA66) return DECODED_INSTR(XVFSUB_D);
-				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:15] = 0xEE32
-				// Opcode: 0x77190000 >> 15 = 0xEE32
-				if ((instr.whole >> 15) == 0xEE32) return DECODED_INSTR(XVBITREVI_D);
+				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:16] = 0x7719
+				if (top16 == 0x7719) return DECODED_INSTR(XVBITREVI_D);
 				// XVREPLVE.D: LASX vector replicate element (double) - bits[31:15] = 0xEA47
 				// Opcode: 0x75238000 >> 15 = 0xEA47
 				if ((instr.whole >> 15) == 0xEA47) return DECODED_INSTR(XVREPLVE_D);
-				// XVORI.B: LASX vector OR immediate byte - bits[31:15] = 0xEFA8
-				// Opcode: 0x77d40000 >> 15 = 0xEFA8
-				if ((instr.whole >> 15) == 0xEFA8) return DECODED_INSTR(XVORI_B);
-				// XVXORI.B: LASX vector XOR immediate byte - bits[31:15] = 0xEFB0
-				// Opcode: 0x77d80000 >> 15 = 0xEFB0
-				if ((instr.whole >> 15) == 0xEFB0) return DECODED_INSTR(XVXORI_B);
+				// XVORI.B: LASX vector OR immediate byte - bits[31:18] = 0x1DF5
+				// Opcode: 0x77d40000 >> 18 = 0x1DF5
+				if ((instr.whole >> 18) == 0x1DF5) return DECODED_INSTR(XVORI_B);
+				// XVXORI.B: LASX vector XOR immediate byte - bits[31:18] = 0x1DF6
+				// Opcode: 0x77d80000 >> 18 = 0x1DF6
+				if ((instr.whole >> 18) == 0x1DF6) return DECODED_INSTR(XVXORI_B);
 				// XVILVL.D: LASX vector interleave low double-word - bits[31:15] = 0xEA37
 				// Opcode: 0x751b8000 >> 15 = 0xEA37
 				if ((instr.whole >> 15) == 0xEA37) return DECODED_INSTR(XVILVL_D);
-				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3F
-				// Opcode: 0x751f8000 >> 15 = 0xEA3F
-				if ((instr.whole >> 15) == 0xEA3F) return DECODED_INSTR(XVILVH_D);
-				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dc1
-				// Opcode: 0x7707e000 >> 18 = 0x1dc1
-				if ((instr.whole >> 18) == 0x1dc1) return DECODED_INSTR(XVPERMI_D);
-				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea66
-				// Opcode: 0x75330000 >> 15 = 0xea66
-				if ((instr.whole >> 15) == 0xea66) return DECODED_INSTR(XVPACKEV_D);
-				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xee33
-				// Opcode: 0x77198000 >> 15 = 0xee33
-				if ((instr.whole >> 15) == 0xee33) return DECODED_INSTR(XVPACKOD_D);
-				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xee07
-				// Opcode: 0x7703c000 >> 15 = 0xee07
-				if ((instr.whole >> 15) == 0xee07) return DECODED_INSTR(XVPICKEV_D);
+				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3B
+				// Opcode: 0x751d8000 >> 15 = 0xEA3B
+				if ((instr.whole >> 15) == 0xEA3B) return DECODED_INSTR(XVILVH_D);
+				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dfa
+				// Opcode: 0x77e80000 >> 18 = 0x1dfa
+				if ((instr.whole >> 18) == 0x1dfa) return DECODED_INSTR(XVPERMI_D);
+				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea2f
+				// Opcode: 0x75178000 >> 15 = 0xea2f
+				if ((instr.whole >> 15) == 0xea2f) return DECODED_INSTR(XVPACKEV_D);
+				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xea33
+				// Opcode: 0x75198000 >> 15 = 0xea33
+				if ((instr.whole >> 15) == 0xea33) return DECODED_INSTR(XVPACKOD_D);
+				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xea3f
+				// Opcode: 0x751f8000 >> 15 = 0xea3f
+				if ((instr.whole >> 15) == 0xea3f) return DECODED_INSTR(XVPICKEV_D);
 				// XVPICKEV.W: LASX vector pick even word - bits[31:15] = 0xea3e
 				// Opcode: 0x751f0000 >> 15 = 0xea3e
 				if ((instr.whole >> 15) == 0xea3e) return DECODED_INSTR(XVPICKEV_W);
-				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xee0f
-				// Opcode: 0x77078000 >> 15 = 0xee0f
-				if ((instr.whole >> 15) == 0xee0f) return DECODED_INSTR(XVPICKOD_D);
-				// XVLDI: LASX load immediate - bits[31:23] = 0xEF
-				// Opcode: 0x77e00000 >> 23 = 0xEF (format: XdSj13 with 13-bit immediate)
-				// Note: Checked last as catch-all for 0x77exxxxx / 0x77fxxxxx after specific instructions
-				if ((instr.whole >> 23) == 0xEF) {
+				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xea43
+				// Opcode: 0x75218000 >> 15 = 0xea43
+				if ((instr.whole >> 15) == 0xea43) return DECODED_INSTR(XVPICKOD_D);
+				// XVLDI: LASX load immediate - bits[31:18] = 0x1df8
+				// Opcode: 0x77e00000 >> 18 = 0x1df8 (format: XdSj13 with 13-bit immediate)
+				if ((instr.whole >> 18) == 0x1df8) {
 					return DECODED_INSTR(XVLDI);
 				}
 			}
-- 
2.43.0


From 99b9354ced26b100688fc7c7730dc12880d5b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 29/44] fix: BYTEPICK.D picks from the top of rk:rj

---
 lib/libloong/bytecode_impl.cpp | 4 ++--
 lib/libloong/la_instr_impl.hpp | 8 ++++----
 lib/libloong/tr_emit.cpp       | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index cb10d62..889d2aa 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -761,9 +761,9 @@ INSTRUCTION(LA64_BC_BYTEPICK_D, la64_bytepick_d)
 	uint32_t shift = fi.sa3 * 8;
 	uint64_t result;
 	if (shift == 0) {
-		result = rj_val;
+		result = rk_val;
 	} else {
-		result = (rk_val << (64 - shift)) | (rj_val >> shift);
+		result = (rk_val << shift) | (rj_val >> (64 - shift));
 	}
 	REG(fi.rd) = result;
 	NEXT_INSTR();
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 01a304c..293d2ea 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -168,7 +168,7 @@ struct InstrImpl {
 	static void BYTEPICK_D(cpu_t& cpu, la_instruction instr) {
 		// BYTEPICK.D rd, rj, rk, sa3
 		// Concatenates rk and rj as a 128-bit value [rk:rj]
-		// Then extracts 64 bits starting at byte offset sa3
+		// Then extracts 64 bits ending sa3 bytes below the top of rk
 		uint32_t sa3 = (instr.whole >> 15) & 0x7;
 		uint64_t rj_val = cpu.reg(instr.r3.rj);
 		uint64_t rk_val = cpu.reg(instr.r3.rk);
@@ -176,12 +176,12 @@ struct InstrImpl {
 		// Shift amount in bits = sa3 * 8
 		uint32_t shift = sa3 * 8;
 
-		// Result is (rk << (64 - shift)) | (rj >> shift)
+		// Result is (rk << shift) | (rj >> (64 - shift))
 		uint64_t result;
 		if (shift == 0) {
-			result = rj_val;
+			result = rk_val;
 		} else {
-			result = (rk_val << (64 - shift)) | (rj_val >> shift);
+			result = (rk_val << shift) | (rj_val >> (64 - shift));
 		}
 		cpu.reg(instr.r3.rd) = result;
 	}
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 8025ef8..3c7f0da 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1361,12 +1361,12 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				uint32_t sa3 = (instr.whole >> 15) & 0x7;
 				if (sa3 == 0) {
-					emit.add_code("  " + emit.reg(instr.r3.rd) + " = " + emit.reg(instr.r3.rj) + ";");
+					emit.add_code("  " + emit.reg(instr.r3.rd) + " = " + emit.reg(instr.r3.rk) + ";");
 				} else {
 					uint32_t shift = sa3 * 8;
 					emit.add_code("  " + emit.reg(instr.r3.rd) + " = (" +
-						emit.reg(instr.r3.rk) + " << " + std::to_string(64 - shift) + ") | (" +
-						emit.reg(instr.r3.rj) + " >> " + std::to_string(shift) + ");");
+						emit.reg(instr.r3.rk) + " << " + std::to_string(shift) + ") | (" +
+						emit.reg(instr.r3.rj) + " >> " + std::to_string(64 - shift) + ");");
 				}
 			}
 			break;
-- 
2.43.0


From 8f2c47e5ebfba4331dc46672af99cca396ffb593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 30/44] fix: FNMSUB negates the difference, so exact zeroes
 keep their sign

---
 lib/libloong/la_instr_impl.hpp |  8 ++++----
 lib/libloong/tr_emit.cpp       | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 293d2ea..187a0a4 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1493,23 +1493,23 @@ struct InstrImpl {
 	}
 
 	static void FNMSUB_S(cpu_t& cpu, la_instruction instr) {
-		// Fused negative multiply-subtract (single precision): fd = -(fj * fk - fa) = fa - fj * fk
+		// Fused negative multiply-subtract (single precision): fd = -(fj * fk - fa)
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] - vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = -(vr_j.f[0] * vr_k.f[0] - vr_a.f[0]);
 	}
 
 	static void FNMSUB_D(cpu_t& cpu, la_instruction instr) {
-		// Fused negative multiply-subtract (double precision): fd = -(fj * fk - fa) = fa - fj * fk
+		// Fused negative multiply-subtract (double precision): fd = -(fj * fk - fa)
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] - vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = -(vr_j.df[0] * vr_k.df[0] - vr_a.df[0]);
 	}
 
 	static void CLO_W(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 3c7f0da..b40719f 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1693,27 +1693,27 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			break;
 		}
 		case InstrId::FNMSUB_D: {
-			// fd = -(fj * fk - fa) = fa - fj * fk
+			// fd = -(fj * fk - fa)
 			uint32_t fd = instr.r4.rd;
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg64(fd) + " = "
-				"-" + emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " + "
-				+ emit.freg64(fa) + ";");
+				"-(" + emit.freg64(fj) + " * "
+				+ emit.freg64(fk) + " - "
+				+ emit.freg64(fa) + ");");
 			break;
 		}
 		case InstrId::FNMSUB_S: {
-			// fd = -(fj * fk - fa) = fa - fj * fk
+			// fd = -(fj * fk - fa)
 			uint32_t fd = instr.r4.rd;
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg32(fd) + " = "
-				"-" + emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " + "
-				+ emit.freg32(fa) + ";");
+				"-(" + emit.freg32(fj) + " * "
+				+ emit.freg32(fk) + " - "
+				+ emit.freg32(fa) + ");");
 			break;
 		}
 
-- 
2.43.0


From ef13ac54fe360bff53cec78a6525c6d15ab5b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 31/44] fix: vector multiply-subtract and negated multiply-add
 compute what they are named for

---
 lib/libloong/la_instr_impl.hpp | 48 +++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 187a0a4..a6d4a1a 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2890,14 +2890,14 @@ struct InstrImpl {
 
 	static void VFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// VFNMADD.D: Vector fused negative multiply-add (double precision, 2x64-bit)
-		// 4R-type format: vd = -(vj * vk) + va = va - vj * vk
+		// 4R-type format: vd = -(vj * vk + va)
 		const auto& src_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& src_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
+		dst.df[0] = -(src_j.df[0] * src_k.df[0] + src_a.df[0]);
+		dst.df[1] = -(src_j.df[1] * src_k.df[1] + src_a.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -3907,7 +3907,7 @@ struct InstrImpl {
 
 	static void XVFMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.S: LASX vector fused multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3919,13 +3919,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = src_j.f[i] * src_k.f[i] - src_a.f[i];
 		}
 	}
 
 	static void XVFMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.D: LASX vector fused multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3936,15 +3936,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = src_j.df[0] * src_k.df[0] - src_a.df[0];
+		dst.df[1] = src_j.df[1] * src_k.df[1] - src_a.df[1];
+		dst.df[2] = src_j.df[2] * src_k.df[2] - src_a.df[2];
+		dst.df[3] = src_j.df[3] * src_k.df[3] - src_a.df[3];
 	}
 
 	static void XVFNMADD_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.S: LASX vector fused negative multiply-add (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3956,13 +3956,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = -(src_j.f[i] * src_k.f[i] + src_a.f[i]);
 		}
 	}
 
 	static void XVFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.D: LASX vector fused negative multiply-add (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3973,15 +3973,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = -(src_j.df[0] * src_k.df[0] + src_a.df[0]);
+		dst.df[1] = -(src_j.df[1] * src_k.df[1] + src_a.df[1]);
+		dst.df[2] = -(src_j.df[2] * src_k.df[2] + src_a.df[2]);
+		dst.df[3] = -(src_j.df[3] * src_k.df[3] + src_a.df[3]);
 	}
 
 	static void XVFNMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.S: LASX vector fused negative multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3993,13 +3993,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = -(src_a.f[i] + src_j.f[i] * src_k.f[i]);
+			dst.f[i] = -(src_j.f[i] * src_k.f[i] - src_a.f[i]);
 		}
 	}
 
 	static void XVFNMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.D: LASX vector fused negative multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4010,10 +4010,10 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = -(src_a.df[0] + src_j.df[0] * src_k.df[0]);
-		dst.df[1] = -(src_a.df[1] + src_j.df[1] * src_k.df[1]);
-		dst.df[2] = -(src_a.df[2] + src_j.df[2] * src_k.df[2]);
-		dst.df[3] = -(src_a.df[3] + src_j.df[3] * src_k.df[3]);
+		dst.df[0] = -(src_j.df[0] * src_k.df[0] - src_a.df[0]);
+		dst.df[1] = -(src_j.df[1] * src_k.df[1] - src_a.df[1]);
+		dst.df[2] = -(src_j.df[2] * src_k.df[2] - src_a.df[2]);
+		dst.df[3] = -(src_j.df[3] * src_k.df[3] - src_a.df[3]);
 	}
 
 	static void XVORI_B(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 1fca45c21d8423894af9065817ec4db5bfbeb660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:14 +0000
Subject: [PATCH 32/44] fix: horizontal adds take odd elements of the first and
 even of the second source

---
 lib/libloong/bytecode_impl.cpp |  6 +++---
 lib/libloong/la_instr_impl.hpp | 36 +++++++++++++++-------------------
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 889d2aa..d0250ce 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -637,9 +637,9 @@ INSTRUCTION(LA64_BC_VHADDW_D_W, la64_vhaddw_d_w)
 	const auto& src1 = REGISTERS().getvr(fi.rj);
 	const auto& src2 = REGISTERS().getvr(fi.rk);
 
-	// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-	const int64_t res1 = (int64_t)(int32_t)src1.w[0] + (int64_t)(int32_t)src1.w[1];
-	const int64_t res2 = (int64_t)(int32_t)src2.w[0] + (int64_t)(int32_t)src2.w[1];
+	// Odd words of vj plus even words of vk
+	const int64_t res1 = (int64_t)(int32_t)src1.w[1] + (int64_t)(int32_t)src2.w[0];
+	const int64_t res2 = (int64_t)(int32_t)src1.w[3] + (int64_t)(int32_t)src2.w[2];
 	dst.d[0] = res1;
 	dst.d[1] = res2;
 	// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index a6d4a1a..803cf99 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2072,14 +2072,14 @@ struct InstrImpl {
 
 	static void VHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// VHADDW.D.W: Vector horizontal add with widening (word to doubleword)
-		// Adds adjacent pairs of 32-bit signed words and produces 64-bit results
+		// Adds odd words of vj to even words of vk and produces 64-bit results
 		const auto& src1 = cpu.registers().getvr(instr.r3.rj);
 		const auto& src2 = cpu.registers().getvr(instr.r3.rk);
 		auto& dst = cpu.registers().getvr(instr.r3.rd);
 
-		// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-		const int64_t res1 = (int64_t)src1.w[0] + (int64_t)src1.w[1];
-		const int64_t res2 = (int64_t)src2.w[0] + (int64_t)src2.w[1];
+		// Odd words of vj plus even words of vk
+		const int64_t res1 = (int64_t)src1.w[1] + (int64_t)src2.w[0];
+		const int64_t res2 = (int64_t)src1.w[3] + (int64_t)src2.w[2];
 		dst.d[0] = res1;
 		dst.d[1] = res2;
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
@@ -2089,22 +2089,19 @@ struct InstrImpl {
 
 	static void XVHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.D.W: LASX vector horizontal add with widening (word to doubleword, 256-bit)
-		// Adds adjacent pairs of 32-bit signed words from xj and produces 64-bit results
-		// Takes all 8 words from xj, produces 4 doublewords
+		// Adds odd words of xj to even words of xk and produces 64-bit results
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src_j = cpu.registers().getvr(xj);
-		//const auto& src_k = cpu.registers().getvr(xk);
+		const auto& src_k = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 8 words from xj: pairs (0,1), (2,3), (4,5), (6,7) → 4 doublewords
-		// xk is unused (or maybe used for other operand in 3-register form)
-		int64_t r0 = (int64_t)src_j.w[0] + (int64_t)src_j.w[1];
-		int64_t r1 = (int64_t)src_j.w[2] + (int64_t)src_j.w[3];
-		int64_t r2 = (int64_t)src_j.w[4] + (int64_t)src_j.w[5];
-		int64_t r3 = (int64_t)src_j.w[6] + (int64_t)src_j.w[7];
+		int64_t r0 = (int64_t)src_j.w[1] + (int64_t)src_k.w[0];
+		int64_t r1 = (int64_t)src_j.w[3] + (int64_t)src_k.w[2];
+		int64_t r2 = (int64_t)src_j.w[5] + (int64_t)src_k.w[4];
+		int64_t r3 = (int64_t)src_j.w[7] + (int64_t)src_k.w[6];
 
 		auto& dst = cpu.registers().getvr(xd);
 		dst.d[0] = r0;
@@ -2247,18 +2244,17 @@ struct InstrImpl {
 
 	static void XVHADDW_Q_D(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.Q.D: LASX vector horizontal add with widening (doubleword to quadword, 256-bit)
-		// Adds adjacent pairs of 64-bit signed doublewords and produces 128-bit results
+		// Adds odd doublewords of xj to even doublewords of xk and produces 128-bit results
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src1 = cpu.registers().getvr(xj);
-		//const auto& src2 = cpu.registers().getvr(xk);
+		const auto& src2 = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 4 doublewords from xj: pairs (0,1), (2,3) → 2 quadwords
-		__int128 q0 = (__int128)src1.d[0] + (__int128)src1.d[1];
-		__int128 q1 = (__int128)src1.d[2] + (__int128)src1.d[3];
+		__int128 q0 = (__int128)src1.d[1] + (__int128)src2.d[0];
+		__int128 q1 = (__int128)src1.d[3] + (__int128)src2.d[2];
 
 		// Store quadwords as pairs of doublewords
 		auto& dst = cpu.registers().getvr(xd);
-- 
2.43.0


From 133354556d08003b03dd3da7c0947e517dde612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:14 +0000
Subject: [PATCH 33/44] fix: LASX element shuffles work within 128-bit lanes

---
 lib/libloong/la_instr_impl.hpp | 167 ++++++++++++++++++---------------
 1 file changed, 90 insertions(+), 77 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 803cf99..4bba491 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2449,8 +2449,9 @@ struct InstrImpl {
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t vk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(vj);
-		const auto& src_k = cpu.registers().getvr(vk);
+		// Copies, as vd may be one of the sources
+		const auto src_j = cpu.registers().getvr(vj);
+		const auto src_k = cpu.registers().getvr(vk);
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Pick even words: dst = [vk[0], vk[2], vj[0], vj[2]]
@@ -3843,25 +3844,23 @@ struct InstrImpl {
 	}
 
 	static void XVREPLVE_D(cpu_t& cpu, la_instruction instr) {
-		// XVREPLVE.D: LASX vector replicate element from register (double precision)
-		// Replicates element selected by rj to all elements in xd from vector xk
-		// Format: xd[i] = xk[rj % 4] for all i
+		// XVREPLVE.D: LASX vector replicate element (double-word)
+		// In each 128-bit lane of xj, replicates the element selected by GPR rk modulo 2
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t rk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src = cpu.registers().getvr(xk);
+		const auto& src = cpu.registers().getvr(xj);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Get the element index from register rj (modulo 4 for double elements)
-		uint32_t idx = cpu.reg(xj) & 0x3;
+		uint32_t idx = cpu.reg(rk) & 0x1;
 
-		// Replicate the selected element to all 4 positions
-		uint64_t value = src.du[idx];
-		dst.du[0] = value;
-		dst.du[1] = value;
-		dst.du[2] = value;
-		dst.du[3] = value;
+		const uint64_t low = src.du[idx];
+		const uint64_t high = src.du[2 + idx];
+		dst.du[0] = low;
+		dst.du[1] = low;
+		dst.du[2] = high;
+		dst.du[3] = high;
 	}
 
 	static void XVFMADD_S(cpu_t& cpu, la_instruction instr) {
@@ -4049,8 +4048,7 @@ struct InstrImpl {
 	}
 
 	static void XVILVL_D(cpu_t& cpu, la_instruction instr) {
-		// XVILVL.D: LASX vector interleave low double-word (256-bit)
-		// Interleaves the low 128-bit double-words from two 256-bit vectors
+		// XVILVL.D: interleave the low double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4059,17 +4057,20 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[0], dst[1] = src_j[0], dst[2] = src_k[1], dst[3] = src_j[1]
-		// For LASX (256-bit), we interleave the low 2 double-words (128-bit) from each source
-		dst.du[0] = src_k.du[0];
-		dst.du[1] = src_j.du[0];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_j.du[1];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[0];
+		const uint64_t r1 = src_j.du[0];
+		const uint64_t r2 = src_k.du[2];
+		const uint64_t r3 = src_j.du[2];
+
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVILVH_D(cpu_t& cpu, la_instruction instr) {
-		// XVILVH.D: LASX vector interleave high double-word (256-bit)
-		// Interleaves the high 128-bit double-words from two 256-bit vectors
+		// XVILVH.D: interleave the high double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4078,12 +4079,16 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[2], dst[1] = src_j[2], dst[2] = src_k[3], dst[3] = src_j[3]
-		// For LASX (256-bit), we interleave the high 2 double-words (128-bit) from each source
-		dst.du[0] = src_k.du[2];
-		dst.du[1] = src_j.du[2];
-		dst.du[2] = src_k.du[3];
-		dst.du[3] = src_j.du[3];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[1];
+		const uint64_t r1 = src_j.du[1];
+		const uint64_t r2 = src_k.du[3];
+		const uint64_t r3 = src_j.du[3];
+
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPERMI_D(cpu_t& cpu, la_instruction instr) {
@@ -4114,9 +4119,7 @@ struct InstrImpl {
 	}
 
 	static void XVPACKEV_D(cpu_t& cpu, la_instruction instr) {
-		// XVPACKEV.D: LASX vector pack even double-word (256-bit)
-		// Packs even-numbered elements (0, 2) from each source
-		// dst[0] = xj[0], dst[1] = xk[0], dst[2] = xj[2], dst[3] = xk[2]
+		// XVPACKEV.D: pack the even double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4125,17 +4128,20 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_k.du[0];
-		dst.du[2] = src_j.du[2];
-		dst.du[3] = src_k.du[2];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[0];
+		const uint64_t r1 = src_j.du[0];
+		const uint64_t r2 = src_k.du[2];
+		const uint64_t r3 = src_j.du[2];
+
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPACKOD_D(cpu_t& cpu, la_instruction instr) {
-		// XVPACKOD.D: LASX vector pack odd double-word (256-bit)
-		// Packs odd-numbered elements (1, 3) from each source
-		// dst[0] = xj[1], dst[1] = xk[1], dst[2] = xj[3], dst[3] = xk[3]
+		// XVPACKOD.D: pack the odd double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4144,17 +4150,20 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_k.du[1];
-		dst.du[2] = src_j.du[3];
-		dst.du[3] = src_k.du[3];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[1];
+		const uint64_t r1 = src_j.du[1];
+		const uint64_t r2 = src_k.du[3];
+		const uint64_t r3 = src_j.du[3];
+
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPICKEV_D(cpu_t& cpu, la_instruction instr) {
-		// XVPICKEV.D: LASX vector pick even double-word (256-bit)
-		// Picks even elements from both sources in a different pattern than PACKEV
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xk[0], dst[3] = xk[2]
+		// XVPICKEV.D: pick the even double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4163,41 +4172,40 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_j.du[2];
-		dst.du[2] = src_k.du[0];
-		dst.du[3] = src_k.du[2];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[0];
+		const uint64_t r1 = src_j.du[0];
+		const uint64_t r2 = src_k.du[2];
+		const uint64_t r3 = src_j.du[2];
+
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPICKEV_W(cpu_t& cpu, la_instruction instr) {
 		// XVPICKEV.W: LASX vector pick even word (256-bit)
-		// Picks even-indexed words from both sources
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xj[4], dst[3] = xj[6]
-		// dst[4] = xk[0], dst[5] = xk[2], dst[6] = xk[4], dst[7] = xk[6]
+		// Picks the even words of each 128-bit lane: [xk[0], xk[2], xj[0], xj[2]]
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		// Copies, as xd may be one of the sources
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even words (indices 0, 2, 4, 6) from both sources
-		dst.w[0] = src_j.w[0];
-		dst.w[1] = src_j.w[2];
-		dst.w[2] = src_j.w[4];
-		dst.w[3] = src_j.w[6];
-		dst.w[4] = src_k.w[0];
-		dst.w[5] = src_k.w[2];
-		dst.w[6] = src_k.w[4];
-		dst.w[7] = src_k.w[6];
+		for (int lane = 0; lane < 8; lane += 4) {
+			dst.w[lane + 0] = src_k.w[lane + 0];
+			dst.w[lane + 1] = src_k.w[lane + 2];
+			dst.w[lane + 2] = src_j.w[lane + 0];
+			dst.w[lane + 3] = src_j.w[lane + 2];
+		}
 	}
 
 	static void XVPICKOD_D(cpu_t& cpu, la_instruction instr) {
-		// XVPICKOD.D: LASX vector pick odd double-word (256-bit)
-		// Picks odd elements from both sources
-		// dst[0] = xj[1], dst[1] = xj[3], dst[2] = xk[1], dst[3] = xk[3]
+		// XVPICKOD.D: pick the odd double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4206,11 +4214,16 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_j.du[3];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_k.du[3];
+		// Read all inputs first to handle register aliasing
+		const uint64_t r0 = src_k.du[1];
+		const uint64_t r1 = src_j.du[1];
+		const uint64_t r2 = src_k.du[3];
+		const uint64_t r3 = src_j.du[3];
+
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVLDI(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 22afecb52c8f616cdbcc4729b4b9bb03c3bbb181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:14 +0000
Subject: [PATCH 34/44] fix: XVMSKNZ.B leaves the mask of each lane in that
 lane

---
 lib/libloong/la_instr_impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 4bba491..703e23a 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3603,7 +3603,7 @@ struct InstrImpl {
 
 	static void XVMSKNZ_B(cpu_t& cpu, la_instruction instr) {
 		// XVMSKNZ.B xd, xj
-		// Create a 32-bit mask where each bit indicates if corresponding byte is non-zero
+		// In each 128-bit lane, a 16-bit mask where each bit indicates if the corresponding byte is non-zero
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 
@@ -3620,9 +3620,9 @@ struct InstrImpl {
 			}
 		}
 
-		dst.du[0] = mask;
+		dst.du[0] = mask & 0xFFFF;
 		dst.du[1] = 0;
-		dst.du[2] = 0;
+		dst.du[2] = mask >> 16;
 		dst.du[3] = 0;
 	}
 
-- 
2.43.0


From 52df924e1154f9becfa0ba4ae525bb1c0373f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:14 +0000
Subject: [PATCH 35/44] fix: FCLASS reports classes at their architectural bits

---
 lib/libloong/la_instr_impl.hpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 703e23a..e2ca36b 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1148,18 +1148,19 @@ struct InstrImpl {
 		int fpclass = std::fpclassify(val);
 		bool is_neg = std::signbit(val);
 
-		// FCLASS returns a 10-bit mask indicating the class
+		// FCLASS returns a 10-bit mask indicating the class: signaling NaN, quiet NaN,
+		// then infinity, normal, subnormal and zero for negative and for positive values
 		uint32_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			result = (vr_j.wu[0] >> 22) & 1 ? 0x002 : 0x001;
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
-		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
-		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
+		} else if (fpclass == FP_SUBNORMAL) {
+			result = is_neg ? 0x010 : 0x100;
+		} else if (fpclass == FP_ZERO) {
+			result = is_neg ? 0x020 : 0x200;
 		}
 		vr_d.wu[0] = result;
 	}
@@ -1176,18 +1177,19 @@ struct InstrImpl {
 		int fpclass = std::fpclassify(val);
 		bool is_neg = std::signbit(val);
 
-		// FCLASS returns a 10-bit mask indicating the class
+		// FCLASS returns a 10-bit mask indicating the class: signaling NaN, quiet NaN,
+		// then infinity, normal, subnormal and zero for negative and for positive values
 		uint64_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			result = (vr_j.du[0] >> 51) & 1 ? 0x002 : 0x001;
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
-		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
-		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
+		} else if (fpclass == FP_SUBNORMAL) {
+			result = is_neg ? 0x010 : 0x100;
+		} else if (fpclass == FP_ZERO) {
+			result = is_neg ? 0x020 : 0x200;
 		}
 		vr_d.du[0] = result;
 	}
-- 
2.43.0


From 68a758d704a533b7e1219d2723f4ba3ad54ce997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:14 +0000
Subject: [PATCH 36/44] fix: XVFCMP.COND.D evaluates every condition

---
 lib/libloong/la_instr_impl.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index e2ca36b..eb5c688 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2214,6 +2214,18 @@ struct InstrImpl {
 						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
 					}
 					break;
+				case 0x08: // CUN - (Quiet) Unordered
+				case 0x09: // SUN - Signaling Unordered
+					dst.du[i] = (std::isnan(val1) || std::isnan(val2)) ? UINT64_MAX : 0;
+					break;
+				case 0x0A: // CULT - (Quiet) Unordered or Less Than
+				case 0x0B: // SULT - Signaling Unordered or Less Than
+					dst.du[i] = !(val1 >= val2) ? UINT64_MAX : 0;
+					break;
+				case 0x0C: // CUEQ - (Quiet) Unordered or Equal
+				case 0x0D: // SUEQ - Signaling Unordered or Equal
+					dst.du[i] = !(val1 < val2 || val1 > val2) ? UINT64_MAX : 0;
+					break;
 				case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
 				case 0x0F: // SULE - Signaling Unordered or Less or Equal
 					if (std::isnan(val1) || std::isnan(val2)) {
@@ -2222,7 +2234,12 @@ struct InstrImpl {
 						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
 					}
 					break;
+				case 0x10: // CNE - (Quiet) Not Equal (ordered)
+				case 0x11: // SNE - Signaling Not Equal (ordered)
+					dst.du[i] = (val1 < val2 || val1 > val2) ? UINT64_MAX : 0;
+					break;
 				case 0x14: // COR - (Quiet) Ordered
+				case 0x15: // SOR - Signaling Ordered
 					if (std::isnan(val1) || std::isnan(val2)) {
 						dst.du[i] = 0;
 					} else {
-- 
2.43.0


From 52ef61d684eeb00cbde682f04d657058ae583e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:14 +0000
Subject: [PATCH 37/44] fix: VFRSTPI.B finds the first negative byte

---
 lib/libloong/la_instr_impl.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index eb5c688..4878bca 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3025,8 +3025,8 @@ struct InstrImpl {
 
 	static void VFRSTPI_B(cpu_t& cpu, la_instruction instr) {
 		// VFRSTPI.B vd, vj, ui5
-		// Find first set position in vector (starting from ui5)
-		// Sets vd[0] to the position of first non-zero byte starting from position ui5
+		// Finds the first negative byte of vj and inserts its
+		// position (16 if there is none) into byte ui5 modulo 16 of vd
 		uint32_t vd = instr.whole & 0x1F;
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t ui5 = (instr.whole >> 10) & 0x1F;
@@ -3034,19 +3034,15 @@ struct InstrImpl {
 		const auto& src = cpu.registers().getvr(vj);
 		auto& dst = cpu.registers().getvr(vd);
 
-		// Find first non-zero byte starting from ui5
 		uint8_t pos = 16; // Default: not found
-		for (int i = ui5; i < 16; i++) {
-			uint8_t byte = src.bu[i];
-			if (byte != 0) {
+		for (int i = 0; i < 16; i++) {
+			if (src.b[i] < 0) {
 				pos = i;
 				break;
 			}
 		}
 
-		// Store result in first byte of vd, clear rest
-		dst.du[0] = pos;
-		dst.du[1] = 0;
+		dst.bu[ui5 & 15] = pos;
 	}
 
 	static void BCNEZ(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 078569902686d5e7079197674e46e7dbbdc5b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:30 +0000
Subject: [PATCH 38/44] fix: append to the shared instruction handler table
 under a lock, without moving it

---
 lib/libloong/decoder_cache.cpp | 16 +++++++++++-----
 lib/libloong/decoder_cache.hpp |  6 ++++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 588870a..3f35506 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -4,6 +4,7 @@
 #include "threaded_bytecodes.hpp"
 #include "util/crc32.hpp"
 #include <cstring>
+#include <mutex>
 
 namespace loongarch {
 extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr<DecodedExecuteSegment>&);
@@ -267,16 +268,21 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 
 	uint16_t DecoderData::compute_handler_for(handler_t handler)
 	{
-		// Search for existing handler
+		static std::mutex handlers_mutex;
+		std::lock_guard<std::mutex> lock(handlers_mutex);
+
 		for (size_t i = 0; i < m_handlers.size(); ++i) {
+			// Search for existing handler
 			if (m_handlers[i] == handler) {
 				return static_cast<uint16_t>(i);
 			}
+			// Add new handler in the first unused place
+			if (m_handlers[i] == nullptr) {
+				m_handlers[i] = handler;
+				return static_cast<uint16_t>(i);
+			}
 		}
-
-		// Add new handler
-		m_handlers.push_back(handler);
-		return static_cast<uint16_t>(m_handlers.size() - 1);
+		throw MachineException(INVALID_PROGRAM, "Too many instruction handlers", m_handlers.size());
 	}
 
 	void DecodedExecuteSegment::set(address_t entry_addr, const DecoderData& data)
diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index f370e07..ab6992d 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -1,6 +1,6 @@
 #pragma once
 #include "common.hpp"
-#include <vector>
+#include <array>
 
 namespace loongarch
 {
@@ -35,7 +35,9 @@ namespace loongarch
 		}
 
 	private:
-		static inline std::vector<handler_t> m_handlers;
+		// Shared by all machines: entries are appended under a lock and never moved or changed
+		static constexpr size_t MAX_HANDLERS = 512;
+		static inline std::array<handler_t, MAX_HANDLERS> m_handlers {};
 	};
 	static_assert(sizeof(DecoderData) == 8, "DecoderData size incorrect");
 
-- 
2.43.0


From e0ca35bbc56294a4de97f7f724b4ea3ad2d3e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:30 +0000
Subject: [PATCH 39/44] fix: VMAX and VMIN printers do not share a static
 buffer between threads

---
 lib/libloong/la_instr_printers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/la_instr_printers.hpp b/lib/libloong/la_instr_printers.hpp
index 37948db..9c12f7d 100644
--- a/lib/libloong/la_instr_printers.hpp
+++ b/lib/libloong/la_instr_printers.hpp
@@ -1728,17 +1728,16 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t bits15 = instr.whole >> 15;
 
 		// Determine size and signedness
+		char buf_suffix[4];
 		const char* suffix;
 		if (bits15 >= 0xE0E0 && bits15 <= 0xE0E3) {
 			// Signed: 0xE0E0-E0E3
 			char size = sizes[bits15 - 0xE0E0];
-			static char buf_suffix[4];
 			snprintf(buf_suffix, sizeof(buf_suffix), ".%c", size);
 			suffix = buf_suffix;
 		} else {
 			// Unsigned: 0xE0E8-E0EB
 			char size = sizes[bits15 - 0xE0E8];
-			static char buf_suffix[4];
 			snprintf(buf_suffix, sizeof(buf_suffix), ".%cu", size);
 			suffix = buf_suffix;
 		}
@@ -1753,17 +1752,16 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t bits15 = instr.whole >> 15;
 
 		// Determine size and signedness
+		char buf_suffix[4];
 		const char* suffix;
 		if (bits15 >= 0xE0E4 && bits15 <= 0xE0E7) {
 			// Signed: 0xE0E4-E0E7
 			char size = sizes[bits15 - 0xE0E4];
-			static char buf_suffix[4];
 			snprintf(buf_suffix, sizeof(buf_suffix), ".%c", size);
 			suffix = buf_suffix;
 		} else {
 			// Unsigned: 0xE0EC-E0EF
 			char size = sizes[bits15 - 0xE0EC];
-			static char buf_suffix[4];
 			snprintf(buf_suffix, sizeof(buf_suffix), ".%cu", size);
 			suffix = buf_suffix;
 		}
-- 
2.43.0


From 901fc3c89876a34a73b8fa2a203f165e8dc9de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 40/44] fix: a shared execute segment is published only when it
 is complete

---
 lib/libloong/memory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index e609968..c7752e8 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -337,8 +337,10 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 			std::lock_guard<std::mutex> lock(entry.mutex);
 			// Double-check in case another thread created it
 			if (!entry.segment) {
-				entry.segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
-				populate_decoder_cache(m_machine, options, entry.segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
+				// Publish the segment only when it is complete: populating may throw
+				segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
+				populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
+				entry.segment = segment;
 			}
 			segment = entry.segment;
 		}
-- 
2.43.0


From a31b7ea58b9cb8316980705697a6da0280029354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 41/44] fix: shared execute segment keys compare the arena size
 they carry

---
 lib/libloong/shared_exec_segment.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/shared_exec_segment.hpp b/lib/libloong/shared_exec_segment.hpp
index 3f6193e..18aa3ee 100644
--- a/lib/libloong/shared_exec_segment.hpp
+++ b/lib/libloong/shared_exec_segment.hpp
@@ -21,11 +21,13 @@ namespace loongarch
 		static SegmentKey from(const DecodedExecuteSegment& segment, uint64_t arena_size);
 
 		bool operator==(const SegmentKey& other) const {
-			return pc == other.pc && crc == other.crc;
+			return pc == other.pc && crc == other.crc && arena_size == other.arena_size;
 		}
 
 		bool operator<(const SegmentKey& other) const {
-			return pc < other.pc || (pc == other.pc && crc < other.crc);
+			if (pc != other.pc) return pc < other.pc;
+			if (crc != other.crc) return crc < other.crc;
+			return arena_size < other.arena_size;
 		}
 	};
 
-- 
2.43.0


From 3516e144e1dd3db713fe39e129434b186514591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:58 +0000
Subject: [PATCH 42/44] fix: BREAK keeps the upper bits of its handler index

---
 lib/libloong/decoder_cache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 3f35506..b62ef47 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -54,7 +54,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		case InstrId::SYSCALL:
 			return LA64_BC_SYSCALL;
 		case InstrId::BREAK:
-			return LA64_BC_FUNCTION;
+			return LA64_BC_FUNCTION + (handler_idx >> 8);
 		case InstrId::NOP:
 			return LA64_BC_NOP;
 
-- 
2.43.0


From eea4eb7e010981a7fef41685023df82cedd042e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:38 +0000
Subject: [PATCH 43/44] fix: an execute segment begins at a multiple of four

---
 lib/libloong/memory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index c7752e8..f26cdb0 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -308,6 +308,9 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 	bool is_initial, bool is_likely_jit)
 {
 	(void)is_likely_jit;
+	if (addr % 4 != 0) {
+		throw MachineException(INVALID_PROGRAM, "Execute segment address is not 4-byte aligned");
+	}
 	if (len % 4 != 0) {
 		throw MachineException(INVALID_PROGRAM, "Execute segment length is not 4-byte aligned");
 	}
-- 
2.43.0


From a118de2eb42453967f34e2b21a43fc13051bdfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:02 +0000
Subject: [PATCH 44/44] fix: clock_gettime reports an invalid clock instead of
 copying an unset time

---
 lib/libloong/linux/syscalls.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 1780252..b02e4aa 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -239,7 +239,10 @@ namespace loongarch
 			machine.template sysargs<int, address_t>();
 		if (tp != 0) {
 			struct timespec ts;
-			clock_gettime(clockid, &ts);
+			if (clock_gettime(clockid, &ts) < 0) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			machine.memory.copy_to_guest(tp, &ts, sizeof(ts));
 		}
 		machine.set_result(0);
-- 
2.43.0

