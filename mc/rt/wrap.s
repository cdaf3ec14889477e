# What every instrumented function enters through: %r11 is the function proper, %r10 its name. The state a function has to preserve is kept on a
# stack of its own, so that the stack the function sees is the one it was given.
    .text
    .globl mc_wrap
mc_wrap:
    movq %rax, mc_t0(%rip)
    movq mc_sp(%rip), %rax
    popq 0(%rax)
    movq %rbx, 8(%rax)
    movq %rbp, 16(%rax)
    movq %r12, 24(%rax)
    movq %r13, 32(%rax)
    movq %r14, 40(%rax)
    movq %r15, 48(%rax)
    movq %rsp, 56(%rax)
    stmxcsr 64(%rax)
    fnstcw 68(%rax)
    movq %r10, 72(%rax)
    addq $96, mc_sp(%rip)
    movq %r11, mc_t1(%rip)
    testq $15, %rsp
    jz 1f
    movq $1, %r11
    call note
1:  fnstsw mc_t2(%rip)
    testw $0x3800, mc_t2(%rip)
    jz 1f
    movq $2, %r11
    call note
1:  pushfq
    popq %r11
    testq $0x400, %r11
    jz 1f
    movq $4, %r11
    call note
1:  movq mc_t1(%rip), %rax
    movq %rax, mc_t3(%rip)
    movq mc_t0(%rip), %rax
    movabsq $0x6b6b6b6b6b6b6b10, %r10
    movabsq $0x6b6b6b6b6b6b6b11, %r11
    call *mc_t3(%rip)
    subq $96, mc_sp(%rip)
    movq mc_sp(%rip), %rcx
    movq 72(%rcx), %r10
    cmpq 8(%rcx), %rbx
    je 1f
    movq $8, %r11
    call note
1:  cmpq 16(%rcx), %rbp
    je 1f
    movq $16, %r11
    call note
1:  cmpq 24(%rcx), %r12
    je 1f
    movq $32, %r11
    call note
1:  cmpq 32(%rcx), %r13
    je 1f
    movq $64, %r11
    call note
1:  cmpq 40(%rcx), %r14
    je 1f
    movq $128, %r11
    call note
1:  cmpq 48(%rcx), %r15
    je 1f
    movq $256, %r11
    call note
1:  cmpq 56(%rcx), %rsp
    je 1f
    movq $512, %r11
    call note
    movq 56(%rcx), %rsp
1:  stmxcsr mc_t2(%rip)
    movl mc_t2(%rip), %r11d
    xorl 64(%rcx), %r11d
    andl $0xffc0, %r11d
    jz 1f
    movq $1024, %r11
    call note
1:  fnstcw mc_t2(%rip)
    movzwl mc_t2(%rip), %r11d
    cmpw 68(%rcx), %r11w
    je 1f
    movq $2048, %r11
    call note
1:  fnstsw mc_t2(%rip)
    movzwl mc_t2(%rip), %r11d
    andl $0x3800, %r11d
    jz 1f
    cmpl $0x3800, %r11d
    je 1f
    movq $2, %r11
    call note
1:  pushfq
    popq %r11
    testq $0x400, %r11
    jz 1f
    movq $4, %r11
    call note
1:  pushq 0(%rcx)
    movabsq $0x6b6b6b6b6b6b6b01, %rcx
    movabsq $0x6b6b6b6b6b6b6b03, %rsi
    movabsq $0x6b6b6b6b6b6b6b04, %rdi
    movabsq $0x6b6b6b6b6b6b6b05, %r8
    movabsq $0x6b6b6b6b6b6b6b06, %r9
    movabsq $0x6b6b6b6b6b6b6b07, %r10
    movabsq $0x6b6b6b6b6b6b6b08, %r11
    .irp r, 2,3,4,5,6,7,8,9,10,11,12,13,14,15
    movq %rcx, %xmm\r
    .endr
    ret
note:                               # %r11: what, %r10: the function
    cmpq $0, mc_viol(%rip)
    jne 1f
    movq %r10, mc_vname(%rip)
1:  orq %r11, mc_viol(%rip)
    ret
    .globl mc_wrap_reset
mc_wrap_reset:
    leaq mc_shadow(%rip), %rax
    movq %rax, mc_sp(%rip)
    ret
    .data
    .globl mc_sp, mc_viol, mc_vname
mc_sp: .quad mc_shadow
mc_viol: .quad 0
mc_vname: .quad 0
    .bss
mc_t0: .skip 8
mc_t1: .skip 8
mc_t2: .skip 8
mc_t3: .skip 8
mc_shadow: .skip 8388608
    .section .note.GNU-stack,"",@progbits
