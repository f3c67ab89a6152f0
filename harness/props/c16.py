"""C16: declarations and partition keys survive being stored and reread."""
import declmix


def run(ctx):
    ctx.model('MCNaming')
    ctx.model('MCDeclaration', consts={'MaxOps': ctx.pick(4, 6)})
    declmix.run(ctx, ctx.pick(1500, 12000), ctx.pick(250, 3000))
