import decompcommon
def run_check():
    return decompcommon.run_prop('C04', 'MC_Decomp_any.cfg')
