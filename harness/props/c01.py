from props import pathalg


def run(ctx):
    pathalg.run(ctx, 'NextJoin')
    ctx.assumptions += ['lengths and points are compared within 1e-7 (paths have extents of at most 60)']
