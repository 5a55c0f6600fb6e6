class Animator:
    def __init__(self, *a, **k):
        pass
