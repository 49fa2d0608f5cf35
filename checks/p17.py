import p16
def check(ctx): p16.check(ctx, 1)
