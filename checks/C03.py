import decompcommon
def run_check():
    return decompcommon.run_prop('C03', 'MC_Decomp_stale.cfg')
