from lib import *
import threading
t = threading.Thread(target=build_ext); t.start()
tool(); extract('Corr2', 'Corr3', 'Cell', 'Field', 'KMeans', '/verif/engine/cxx/enums.cpp' if VERIF == '/verif' else os.path.join(VERIF, 'engine/cxx/enums.cpp'))
t.join(); print('ok')
