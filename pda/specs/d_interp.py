# --- interpolation: the case supplies the required rows

def interp_out(*rows):
    return rows
