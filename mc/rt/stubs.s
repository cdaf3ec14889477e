# Stack-alignment checks at the calls made by code under test, and the checked call.
    .text
.macro STUB name, target
    .globl \name
\name:
    pushq %rbp
    movq %rsp, %rbp
    testq $15, %rsp
    jz 1f
    # misaligned: record it, on an aligned stack
    subq $64, %rsp
    andq $-16, %rsp
    movq %rdi, 0(%rsp)
    movq %rsi, 8(%rsp)
    movsd %xmm0, 16(%rsp)
    call mc_misaligned
    movq 0(%rsp), %rdi
    movq 8(%rsp), %rsi
    movsd 16(%rsp), %xmm0
    jmp 2f
1:  subq $64, %rsp
2:  movq 16(%rbp), %rcx
    movq %rcx, (%rsp)
    movq 24(%rbp), %rcx
    movq %rcx, 8(%rsp)
    cld
    call \target
    leave
    # whatever the convention does not preserve is lost
    movabsq $0x6b6b6b6b6b6b6b01, %rcx
    movabsq $0x6b6b6b6b6b6b6b02, %rdx
    movabsq $0x6b6b6b6b6b6b6b03, %rsi
    movabsq $0x6b6b6b6b6b6b6b04, %rdi
    movabsq $0x6b6b6b6b6b6b6b05, %r8
    movabsq $0x6b6b6b6b6b6b6b06, %r9
    movabsq $0x6b6b6b6b6b6b6b07, %r10
    movabsq $0x6b6b6b6b6b6b6b08, %r11
    .irp r, 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15
    movq %rcx, %xmm\r
    .endr
    ret
.endm
    STUB emit, mc_emit
    STUB emitu, mc_emitu
    STUB emitf, mc_emitf
    STUB emitd, mc_emitd
    STUB emitld, mc_emitld
    STUB emits, mc_emits
    STUB emitb, mc_emitb
    STUB choose, mc_choose
    STUB pick, mc_pick
    .globl explore
explore: jmp mc_explore

# unsigned long mc_call_checked(void (*fn)(void)): a bit mask of what fn failed to preserve
    .globl mc_call_checked
mc_call_checked:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $1064, %rsp
    # what lies above the callee's frame is the caller's
    movq %rdi, %rax
    movq %rsp, %rdi
    movl $128, %ecx
    movq %rax, %rdx
    movabsq $0x5f4e3d2c1b0a9988, %rax
    rep stosq
    movq %rdx, %rdi
    movq %rsp, mc_saved_rsp(%rip)
    movq $0x5b1b2b3b4b5b6b7b, %rbx
    movq $0x5c1c2c3c4c5c6c7c, %rbp
    movq $0x5d1d2d3d4d5d6d7d, %r12
    movq $0x5e1e2e3e4e5e6e7e, %r13
    movq $0x5f1f2f3f4f5f6f7f, %r14
    movq $0x5a1a2a3a4a5a6a7a, %r15
    fnstcw mc_cw(%rip)
    stmxcsr mc_mx(%rip)
    cmpl $0, mc_step(%rip)
    je 1f
    pushfq
    orq $0x100, (%rsp)
    popfq
1:  call *%rdi
    cmpl $0, mc_step(%rip)
    je 1f
    pushfq
    andq $~0x100, (%rsp)
    popfq
1:  xorq %rax, %rax
    movq $0x5b1b2b3b4b5b6b7b, %rcx
    cmpq %rcx, %rbx
    je 1f
    orq $1, %rax
1:  movq $0x5c1c2c3c4c5c6c7c, %rcx
    cmpq %rcx, %rbp
    je 1f
    orq $2, %rax
1:  movq $0x5d1d2d3d4d5d6d7d, %rcx
    cmpq %rcx, %r12
    je 1f
    orq $4, %rax
1:  movq $0x5e1e2e3e4e5e6e7e, %rcx
    cmpq %rcx, %r13
    je 1f
    orq $8, %rax
1:  movq $0x5f1f2f3f4f5f6f7f, %rcx
    cmpq %rcx, %r14
    je 1f
    orq $16, %rax
1:  movq $0x5a1a2a3a4a5a6a7a, %rcx
    cmpq %rcx, %r15
    je 1f
    orq $32, %rax
1:  cmpq mc_saved_rsp(%rip), %rsp
    je 1f
    orq $64, %rax
    movq mc_saved_rsp(%rip), %rsp
1:  fnstcw mc_cw2(%rip)
    movzwl mc_cw(%rip), %ecx
    movzwl mc_cw2(%rip), %edx
    cmpl %ecx, %edx
    je 1f
    orq $128, %rax
    fldcw mc_cw(%rip)
1:  stmxcsr mc_mx2(%rip)
    movl mc_mx(%rip), %ecx
    movl mc_mx2(%rip), %edx
    xorl %ecx, %edx
    andl $0xffc0, %edx
    jz 1f
    orq $256, %rax
1:  pushfq
    popq %rdx
    testq $0x400, %rdx
    jz 1f
    orq $512, %rax
    cld
1:  fnstenv mc_fenv(%rip)
    fldenv mc_fenv(%rip)
    movzwl mc_fenv+8(%rip), %edx
    cmpl $0xffff, %edx
    je 1f
    orq $1024, %rax
    fninit
    fldcw mc_cw(%rip)
1:  movabsq $0x5f4e3d2c1b0a9988, %rcx
    movl $0, %edx
2:  cmpq %rcx, (%rsp,%rdx,8)
    je 3f
    orq $2048, %rax
3:  incl %edx
    cmpl $128, %edx
    jne 2b
    addq $1064, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
    .bss
    .globl mc_saved_rsp, mc_step
mc_step: .skip 4
    .balign 8
mc_saved_rsp: .skip 8
mc_cw: .skip 4
mc_cw2: .skip 4
mc_mx: .skip 4
mc_mx2: .skip 4
mc_fenv: .skip 32
    .section .note.GNU-stack,"",@progbits
