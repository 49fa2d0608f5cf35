import sort_common
def check(ctx): sort_common.check(ctx, 0)
