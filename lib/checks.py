import os

def bus(n):
    return dict(src='bus.cpp', groups=['core'], flags=['-DBUS_PROP=%d' % n], name='bus%d' % n)

def neuron(n):
    return dict(src='neuron.cpp', groups=['core', 'st', 'dev'], flavor='o2', flags=['-DNEURON_PROP=%d' % n], name='neuron%d' % n)

def net(n):
    return dict(src='net.cpp', groups=['core', 'st', 'dev'], flavor='o2', flags=['-DNET_PROP=%d' % n], name='net%d' % n)

def mt(n):
    return dict(src='net.cpp', groups=['core', 'mt', 'dev'], flavor='mtstub', flags=['-DNET_PROP=%d' % n], name='net%d' % n)

H5 = ['-I' + os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/harness/h5stub']

CHECKS = {
    'C01': bus(1),
    'C02': bus(2),
    'C03': bus(3),
    'C04': dict(src='c04.cpp', groups=['core'], flavor='sched'),
    'C05': dict(src='msg.cpp', groups=['core'], flags=['-DMSG_PROP=5'], name='msg5'),
    'C06': dict(src='msg.cpp', groups=['core'], flags=['-DMSG_PROP=6'], name='msg6'),
    'C07': dict(src='c07.cpp', groups=['core']),
    'C08': dict(src='c08.cpp', groups=['core']),
    'C28': dict(src='c28.cpp', groups=['core']),
    'C09': dict(src='c09.cpp', groups=['pool'], flavor='sched'),
    'C10': dict(src='c10.cpp', groups=['core', 'mt', 'pool', 'dev'], flavor='sched'),
    'C11': mt(11),
    'C12': net(12),
    'C13': net(13),
    'C14': neuron(14),
    'C15': neuron(15),
    'C16': neuron(16),
    'C17': net(17),
    'C18': net(18),
    'C19': dict(src='c19.cpp', flavor='plain', groups=['core', 'framework', 'logging']),
    'C20': dict(src='c20.cpp', groups=['core', 'framework', 'logging']),
    'C21': dict(src='c21.cpp', groups=['core', 'framework', 'logging']),
    'C25': dict(src='c25.cpp', groups=['core', 'framework', 'logging']),
    'C27': dict(src='c27.cpp', groups=['core', 'framework', 'logging']),
    'C22': dict(src='c22.cpp', flavor='mtstub', groups=['core', 'framework', 'logging', 'st', 'mt', 'dev']),
    'C31': dict(src='c31.cpp', flavor='plain', groups=['core', 'framework', 'logging', 'st', 'dev']),
    'C32': dict(src='c32.cpp', flavor='plain', groups=['core', 'framework', 'logging']),
    'C33': dict(src='c33.cpp', groups=['core', 'framework', 'logging']),
    'C34': dict(src='c34.cpp', groups=['core', 'framework', 'logging']),
    'C23': dict(src='c23.cpp', groups=['core', 'st', 'mt', 'pool', 'dev']),
    'C24': dict(src='c24.cpp', flavor='mtstub', groups=['core', 'framework', 'logging', 'st', 'mt', 'dev']),
    'C26': dict(src='c26.cpp', groups=['core']),
    'C30': dict(src='c30.cpp', groups=['core', 'framework', 'logging'], flavor='plain'),
    'C37': dict(src='c37.cpp', groups=['core', 'framework', 'logging', 'visual'], flags=['-isystem', '/usr/include/opencv4'],
                link=['-lopencv_imgproc', '-lopencv_core']),
    'C38': dict(src='c38.cpp', groups=['core', 'framework', 'logging', 'sonata']),
    'C39': dict(src='c39.cpp', groups=['core', 'storage'], flags=H5),
    'C29': dict(kind='python', src='c29.py'),
    'C35': dict(kind='python', src='c35.py'),
    'C36': dict(kind='python', src='c36.py'),
}
