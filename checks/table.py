# property -> check program, variants run per tier
CHECKS = {
    'C03': {'src': 'c03.c', 'quick': ['opt'], 'thorough': ['opt', 'asan']},
    'C04': {'src': 'c04.c', 'quick': ['asan']},
    'C08': {'src': 'c08.c', 'quick': ['opt'], 'thorough': ['opt', 'asan']},
    'C09': {'src': 'c09.c', 'quick': ['opt'], 'thorough': ['opt', 'asan']},
    'C10': {'src': 'c10.c', 'quick': ['opt'], 'thorough': ['opt', 'asan']},
    'C12': {'src': 'c12.c', 'quick': ['opt'], 'thorough': ['opt', 'asan']},
    'C01': {'src': 'c01.c', 'quick': ['asan'], 'thorough': ['asan']},
    'C02': {'src': 'c02.c', 'quick': ['asan'], 'thorough': ['asan']},
    'C13': {'src':'c13.c','quick':['opt']},
    'C07': {'src':'c07.c','quick':['opt']},
    'C06': {'src':'c06.c','quick':['opt'],'thorough':['opt','asan']},
    'C05': {'src':'c05.c','quick':['opt']},
    'C22': {'src':'c22.c','quick':['opt'],'thorough':['opt','asan']},
    'C21': {'src':'c21.c','quick':['opt'],'thorough':['opt','asan']},
    'C16': {'src':'c16.c','quick':['v8'],'thorough':['v8','v8asan','opt']},
    'C18': {'src':'c18.c','quick':['opt'],'thorough':['opt','asan']},
    'C15': {'src':'c15.c','quick':['opt'],'thorough':['opt']},
    'C24': {'src':'c24.c','quick':['opt'],'thorough':['opt','asan']},
    'C25': {'src':'c25.c','quick':['opt'],'thorough':['opt']},
    'C20': {'src':'c20.c','quick':['opt'],'thorough':['opt','asan']},
    'C11': {'src':'c11.c','quick':['opt'],'thorough':['opt','asan']},
    'C23': {'src':'c23.c','quick':['opt'],'thorough':['opt']},
    'C28': {'src':'c28.c','quick':['opt'],'thorough':['opt','asan']},
    'C17': {'src':'c17.c','quick':['opt']},
    'C14': {'src':'c14.c','quick':['opt'],'thorough':['opt','asan']},
    'C19': {'src':'c19.c','quick':['opt'],'thorough':['opt','asan']},
    'C29': {'src':'c29.c','quick':['opt'],'thorough':['opt','asan']},
    'C27': {'src':'c27.c','quick':['opt'],'thorough':['opt','asan']},
    'C26': {'src':'c26.c','quick':['opt'],'thorough':['opt','asan']},
    'C30': {'src':'c30.c','internal':True,'quick':['opt'],'thorough':['opt','asan']},
    'C31': {'src':'c31.c','quick':['fmtasan']},
    'C32': {'src':'c32.c','quick':['fmt']},
    'C33': {'src':'c33.c','quick':['fmt'],'thorough':['fmt','fmtasan']},
    'C37': {'src':'c37.c','quick':['fmt']},
    'C36': {'src':'c36.c','quick':['fmtasan']},
    'C35': {'src':'c35.c','quick':['fmtasan']},
    'C39': {'src':'c39.c','quick':['opt'],'thorough':['opt','asan','r22']},
    'C38': {'src':'c38.c','quick':['opt','asan']},
    'C34': {'src':'c34.c','quick':['fmt']},
}
