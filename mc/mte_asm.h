/* The memory tagging instructions the allocator uses, for a machine that has none: each becomes a
 * call of the model in mte.c. Included before the allocator's own sources only. */
#pragma once
__asm__(".macro .arch_extension x\n.endm\n"
        ".macro irg d, p, m\n pushq \\p\n pushq \\m\n callq mte_do_irg\n leaq 8(%rsp), %rsp\n popq \\d\n.endm\n"
        ".macro stg d, p\n pushq \\d\n callq mte_do_stg\n leaq 8(%rsp), %rsp\n.endm\n"
        ".macro ldg d, p\n pushq \\d\n callq mte_do_ldg\n popq \\d\n.endm\n");
