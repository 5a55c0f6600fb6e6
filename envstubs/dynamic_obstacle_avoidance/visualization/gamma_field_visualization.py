def gamma_field_multihull(*a, **k):
    return None


gamma_field = gamma_field_multihull
