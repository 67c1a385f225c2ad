
"""Reference formulas: the repository's own numerical model (tests/numerics.py at the pinned
commit), which is independent of the Rust code, executed on value graphs.  Differences from
that file are marked.  Quark polarizations are for nc colours = 3."""
nq = 1
nc = 3


def f(s):
    # the reference's ln((sqrt(s+4)-sqrt(s))/(sqrt(s+4)+sqrt(s))), written with the
    # logarithms the library is given (ln s is an argument of the _sep forms)
    la = (3*s**3-34*s**2-28*s-24)/s*np.sqrt((s+4)/s) * \
        (2*np.log((np.sqrt(1+4/s)-1)/2)+np.log(s))
    lb = 2*(1+s)**2/s**3*(3*s**3-20*s**2+11*s-2)*np.log(1+s)
    lc = (2-3*s**2)*np.log(s)
    ra = -(4+s)/s*(s**2-20*s+12)
    rb = 2*(1+s)**2/s**2*(s**2-10*s+1)
    rc = 2/s**2+2-s**2
    return (la+lb+lc+ra+rb+rc)/72 + 5/(8*s)


def f_xi(s):
    return 1/(4*s)-(2*s*np.log(s)-2*(1-s)*(1-s**3)/s**3*np.log(1+s)+(3*s**2-3*s+2)/s**2)/12


def f_q(s):
    return 4/9*((s-2)/(2*s)*np.sqrt((4+s)/s)*np.log((np.sqrt(s+4)-np.sqrt(s))/(np.sqrt(s+4)+np.sqrt(s)))-2/s+5/6)


def f_q_crossed(s):
    return 4/9*((s**2+2*s+16)/(2*s*(4+s))*np.sqrt((4+s)/s)*np.log((np.sqrt(s+4)-np.sqrt(s))/(np.sqrt(s+4)+np.sqrt(s)))+4/s-1/6)


def g(s):
    return ((1+s)**2*(2*s-1)/s**2 * np.log(1+s)-2*s*np.log(s)+1/s+2)/12


def ym_gluon_dressing_inv(s, xi, f0):
    return f(s)+xi*f_xi(s)+f0


def qcd_gluon_dressing_inv(s, mq, xi, f0):
    return ym_gluon_dressing_inv(s, xi, f0)+nq/nc*f_q(s/mq**2)


def qcd_gluon_dressing_crossed_inv(s, mq, xi, f0):
    return ym_gluon_dressing_inv(s, xi, f0)+nq/nc*f_q_crossed(s/mq**2)


def en(q, m):
    return np.sqrt(q**2+m**2)


def bose(q, m, beta):
    return 1/(np.exp(beta*en(q, m))-1)


def fermi(q, m, beta, mu):
    return 1/(np.exp(beta*(en(q, m)-mu))+1)


def fermi_double(q, m, beta, mu):
    return fermi(q, m, beta, mu)+fermi(q, m, beta, -mu)


def j_m_i(q, m, beta):
    return q**2*bose(q, m, beta)/(en(q, m)*2*np.pi**2)


def d_j_m_i(q, m, beta):
    return -bose(q, m, beta)/(en(q, m)*4*np.pi**2)


def j_m_l_i(q, m, beta):
    return -q**2*bose(q, m, beta)*en(q, m)/(2*np.pi**2)


def j_m_t_i(q, m, beta):
    return q**4*bose(q, m, beta)/(en(q, m)*6*np.pi**2)


def j_0_t_i(q, beta):
    return j_m_t_i(q, 0, beta)


def tlog(q, om, p, en, delta):
    r = om**2+p**2+2j*en*om+delta
    r0 = 2*q*p
    ru = r+r0
    rd = r-r0
    return np.log(ru/rd)


def tlog_1o(q, om, en, delta):
    r = om**2+2j*en*om+delta
    return 4*q/r


def tlog_l(q, om, p, m1, m2):
    en1 = np.sqrt(q*q+m1*m1)
    en2 = np.sqrt(q*q+m2*m2)
    z = om+1j*en2
    delta = m1*m1-m2*m2
    return (z**2+en1**2+p**2*(2*z/om-1))**2*tlog(q, om, p, en2, delta)


def tlog_l_3o(q, om, en, delta):
    r = om**2+2j*en*om+delta
    return 4*q*(1+4j*en/om+4*q**2/(3*r))


def tlog_l2(q, om, p, en, delta):
    return (om**2+2j*om*en+delta+p**2*(2j*en/om+1))**2*tlog(q, om, p, en, delta)


def tlog_l3(q, om, p, en, delta):
    m12 = delta+en**2-q**2
    en1 = np.sqrt(q*q+m12)
    z = om+1j*en
    return (z**2+en1**2+p**2*(2*z/om-1))**2*tlog(q, om, p, en, delta)


def tlog_t(q, om, p, en, delta):
    r = om**2+p**2+2j*en*om+delta
    r0 = 2*q*p
    ru = r+r0
    rd = r-r0
    return ru*rd*tlog(q, om, p, en, delta)


def tlog_t_3o(q, om, en, delta):
    r = om**2+2j*en*om+delta
    return (4*q*(1-8*q**2/(3*r)))


def i_m_m_i(q, om, p, m1, m2, beta):
    delta1 = m2**2-m1**2
    delta2 = m1**2-m2**2
    t1 = bose(q, m1, beta)/en(q, m1)*(tlog(q, om, p, en(q, m1),
                                           delta1)+tlog(q, -om, p, en(q, m1), delta1))/2
    t2 = bose(q, m2, beta)/en(q, m2)*(tlog(q, om, p, en(q, m2),
                                           delta2)+tlog(q, -om, p, en(q, m2), delta2))/2
    return (t1+t2)*q/p/(8*np.pi**2)


def i_m_m_i_zp(q, om, m1, m2, beta):
    delta1 = m2**2-m1**2
    delta2 = m1**2-m2**2
    t1 = bose(q, m1, beta)/en(q, m1)*(tlog_1o(q, om, en(q, m1),
                                              delta1)+tlog_1o(q, -om, en(q, m1), delta1))/2
    t2 = bose(q, m2, beta)/en(q, m2)*(tlog_1o(q, om, en(q, m2),
                                              delta2)+tlog_1o(q, -om, en(q, m2), delta2))/2
    return (t1+t2)*q/(8*np.pi**2)


def i_m_m_l_i(q, om, p, m1, m2, beta):
    om = om + 1E-16
    delta1 = m2**2-m1**2
    delta2 = m1**2-m2**2
    t1 = bose(q, m1, beta)/en(q, m1)*((tlog_l(q, om, p, m2, m1) +
                                       tlog_l(q, -om, p, m2, m1))/2-4*q*p*(om**2+p**2+delta1))
    t2 = bose(q, m2, beta)/en(q, m2)*((tlog_l(q, om, p, m1, m2) +
                                       tlog_l(q, -om, p, m1, m2))/2-4*q*p*(om**2+p**2+delta2))
    return om**2/(om**2+p**2)*(t1+t2)*q/(p**3*32*np.pi**2)


def i_m_m_l_i_zp(q, om, m1, m2, beta):
    delta = m2**2-m1**2
    en1 = en(q, m1)
    en2 = en(q, m2)
    r1p = 1/(om*om+2j*om*en1+delta)
    r1m = 1/(om*om-2j*om*en1+delta)
    r2p = 1/(om*om+2j*om*en2-delta)
    r2m = 1/(om*om-2j*om*en2-delta)
    t1 = bose(q, m1, beta)/en1*(r1p+r1m)/2
    t2 = bose(q, m2, beta)/en2*(r2p+r2m)/2
    return (t1+t2)*q**4/(6*np.pi**2)


def i_m_m_t_i(q, om, p, m1, m2, beta):
    delta1 = m2**2-m1**2
    delta2 = m1**2-m2**2
    en1 = en(q, m1)
    en2 = en(q, m2)
    t1 = bose(q, m1, beta)/en1*((tlog_t(q, om, p, en1, delta1) +
                                 tlog_t(q, -om, p, en1, delta1))/2-4*q*p*(om**2+p**2+delta1))
    t2 = bose(q, m2, beta)/en(q, m2)*((tlog_t(q, om, p, en2, delta2) +
                                       tlog_t(q, -om, p, en2, delta2))/2-4*q*p*(om**2+p**2+delta2))
    return -(t1+t2)*q/(p**3*64*np.pi**2)


def i_m_m_t_i_zp(q, om, m1, m2, beta):
    delta1 = m2**2-m1**2
    delta2 = m1**2-m2**2
    en1 = en(q, m1)
    en2 = en(q, m2)
    r1p = 1/(om*om+2j*om*en1+delta1)
    r1m = 1/(om*om-2j*om*en1+delta1)
    r2p = 1/(om*om+2j*om*en2+delta2)
    r2m = 1/(om*om-2j*om*en2+delta2)
    t1 = bose(q, m1, beta)/en1*(r1p+r1m)/2
    t2 = bose(q, m2, beta)/en2*(r2p+r2m)/2
    return (t1+t2)*q**4/(6*np.pi**2)


def d_j_m_i(q, m, beta):
    return -bose(q, m, beta)/(en(q, m)*4*np.pi**2)


def d2_j_m_i(q, m, beta):
    bos = bose(q, m, beta)
    e = en(q, m)
    bosm = 1/(np.exp(-e*beta)-1)
    return (bos/e**3-beta*bos*bosm/e**2)/(8*np.pi**2)


def d_j_m_l_i(q, m, beta):
    return en(q, m)*bose(q, m, beta)/(4*np.pi**2)


def jnnm(q, m, beta):
    bos = bose(q, m, beta)
    e = en(q, m)
    bosm = 1/(np.exp(-e*beta)-1)
    return bos*bosm/(8*np.pi**2)


def d2_j_m_l_i(q, m, beta):
    return -d_j_m_i(q, m, beta)/2+beta*jnnm(q, m, beta)


def d_j_m_t_i(q, m, beta):
    return -j_m_i(q, m, beta)/2


def d2_j_m_t_i(q, m, beta):
    return -d_j_m_i(q, m, beta)/2


def d_i_m_m_i(q, om, p, m1, m2, beta):
    x1 = -bose(q, m1, beta)/en(q, m1) * \
        (1/((om+1j*en(q, m1))**2+en(q+p, m2)**2) +
         1/((om+1j*en(q, m1))**2+en(q-p, m2)**2) +
         1/((-om+1j*en(q, m1))**2+en(q+p, m2)**2) +
         1/((-om+1j*en(q, m1))**2+en(q-p, m2)**2))/2
    x2 = bose(q, m2, beta)/en(q, m2) * \
        (1/((om+1j*en(q, m2))**2+en(q+p, m1)**2) -
         1/((om+1j*en(q, m2))**2+en(q-p, m1)**2) +
         1/((-om+1j*en(q, m2))**2+en(q+p, m1)**2) -
         1/((-om+1j*en(q, m2))**2+en(q-p, m1)**2))/2
    x3 = -bose(q, m1, beta)/en(q, m1) * \
        (1/((om+1j*en(q, m1))**2+en(q+p, m2)**2) -
         1/((om+1j*en(q, m1))**2+en(q-p, m2)**2) +
         1/((-om+1j*en(q, m1))**2+en(q+p, m2)**2) -
         1/((-om+1j*en(q, m1))**2+en(q-p, m2)**2))/2
    return (x1+(x2+x3)*q/p)/(8*np.pi**2)


def d_i_m_m_i_zp(q, om, m1, m2, beta):
    x1 = -bose(q, m1, beta)/en(q, m1) * \
        (1/((om+1j*en(q, m1))**2+en(q, m2)**2) +
         1/((-om+1j*en(q, m1))**2+en(q, m2)**2))/2
    x2 = bose(q, m2, beta)/en(q, m2) * \
        (1/((om+1j*en(q, m2))**2+en(q, m1)**2)**2 +
         1/((-om+1j*en(q, m2))**2+en(q, m1)**2)**2)/2
    x3 = -bose(q, m1, beta)/en(q, m1) * \
        (1/((om+1j*en(q, m1))**2+en(q, m2)**2)**2 +
         1/((-om+1j*en(q, m1))**2+en(q, m2)**2)**2)/2
    return (x1-2*(x2+x3)*q*q)/(4*np.pi**2)


def d_i_m_m_l_i(q, om, p, m1, m2, beta):
    om = om+1E-16
    bose1 = bose(q, m1, beta)
    en1 = en(q, m1)
    z1p = om+1j*en1
    z1m = -om+1j*en1
    bose2 = bose(q, m2, beta)
    en2 = en(q, m2)
    z2p = om+1j*en2
    z2m = -om+1j*en2
    t1 = -bose1/en1*((1/(z1p**2+(p+q)**2+m2**2)+1/(z1p**2+(p-q)**2+m2**2))*(z1p**2+q**2+m2**2+p**2*(2*z1p/om-1))**2 +
                     (1/(z1m**2+(p+q)**2+m2**2)+1/(z1m**2+(p-q)**2+m2**2))*(z1m**2+q**2+m2**2+p**2*(-2*z1m/om-1))**2)/4
    t2 = bose1/en1*(om**2+p**2+m2**2-m1**2)
    t3 = 2*q**2*(bose1/en1-bose2/en2)
    t4 = q/p*(bose2/en2*((z2p**2+q**2+m1**2+p**2*(2*z2p/om-1))
              * tlog(q, om, p, en2, m1**2-m2**2)+(z2m**2+q**2+m1**2+p**2*(-2*z2m/om-1))
              * tlog(q, -om, p, en2, m1**2-m2**2))
              - bose1/en1*((z1p**2+q**2+m2**2+p**2*(2*z1p/om-1))
              * tlog(q, om, p, en1, m2**2-m1**2)+(z1m**2+q**2+m2**2+p**2*(-2*z1m/om-1))
              * tlog(q, -om, p, en1, m2**2-m1**2)))/2
    t5 = q/p*(bose2/en2*((z2p**2+q**2+m1**2+p**2*(2*z2p/om-1))**2
              * (1/(z2p**2+en(q+p, m1)**2)-1/(z2p**2+en(q-p, m1)**2))+(z2m**2+q**2+m1**2+p**2*(-2*z2m/om-1))**2
              * (1/(z2m**2+en(q+p, m1)**2)-1/(z2m**2+en(q-p, m1)**2)))
              - bose1/en1*((z1p**2+q**2+m2**2+p**2*(2*z1p/om-1))**2
              * (1/(z1p**2+en(q+p, m2)**2)-1/(z1p**2+en(q-p, m2)**2))+(z1m**2+q**2+m2**2+p**2*(-2*z1m/om-1))**2
              * (1/(z1m**2+en(q+p, m2)**2)-1/(z1m**2+en(q-p, m2)**2))))/4
    return om**2/(om**2+p**2)*(t1+t2+t3+t4+t5)/(16*np.pi**2*p**2)


def d_i_m_m_l_i_zp(q, om, m1, m2, beta):
    bose1 = bose(q, m1, beta)
    en1 = en(q, m1)
    bose2 = bose(q, m2, beta)
    en2 = en(q, m2)
    t10 = bose1/en1*(1/(om*om+2j*en1*om+m2*m2-m1*m1) +
                     1/(om*om-2j*en1*om+m2*m2-m1*m1))/2
    t1 = bose1/en1*(1/(om*om+2j*en1*om+m2*m2-m1*m1)**2 +
                    1/(om*om-2j*en1*om+m2*m2-m1*m1)**2)/2
    t2 = bose2/en2*(1/(om*om+2j*en2*om+m1*m1-m2*m2)**2 +
                    1/(om*om-2j*en2*om+m1*m1-m2*m2)**2)/2
    return (-t10/4+(t1-t2)*q**2/6)*q**2/(np.pi**2)


def d_i_m_m_t_i(q, om, p, m1, m2, beta):
    delta = m2**2-m1**2
    bose1 = bose(q, m1, beta)
    en1 = en(q, m1)
    bose2 = bose(q, m2, beta)
    en2 = en(q, m2)
    t1 = -q/p*bose1/en1*(tlog(q, om, p, en1, delta) +
                         tlog(q, -om, p, en1, delta))/(32*np.pi**2)
    t2 = q**2/p**2*(bose2/en2-bose1/en1)/(8*np.pi**2)
    t31 = bose1/en1*(((om+1j*en1)**2+m2**2+q**2+p**2)*tlog(q, om, p, en1, delta) +
                     ((-om+1j*en1)**2+m2**2+q**2+p**2)*tlog(q, -om, p, en1, delta))/2
    t32 = bose2/en2*(((om+1j*en2)**2+m1**2+q**2+p**2)*tlog(q, om, p, en2, -delta) +
                     ((-om+1j*en2)**2+m1**2+q**2+p**2)*tlog(q, -om, p, en2, -delta))/2
    t3 = q/p**3*(t31-t32)/(32*np.pi**2)
    return t1+t2+t3


def ghost_se(q, om, p, m, beta):
    s = om*om+p*p
    m2 = m*m
    a = s+m2
    t1 = -s*a/(2*m2)*i_m_m_i(q, om, p, m, 0, beta)
    t2 = s*s/(2*m2)*i_m_m_i(q, om, p, 0, 0, beta)
    t3 = (2*s-m2)/(4*m2)*(j_m_i(q, m, beta)-j_m_i(q, 0, beta))
    t4 = a*a/4 * d_i_m_m_i(q, om, p, m, 0, beta)
    t5 = -(s-m2)/4*d_j_m_i(q, m, beta)
    return t1+t2+t3+t4+t5


def ghost_se_zp(q, om, m, beta):
    s = om*om
    m2 = m*m
    a = s+m2
    t1 = -s*a/(2*m2)*i_m_m_i_zp(q, om,  m, 0, beta)
    t2 = s*s/(2*m2)*i_m_m_i_zp(q, om,  0, 0, beta)
    t3 = (2*s-m2)/(4*m2)*(j_m_i(q, m, beta)-j_m_i(q, 0, beta))
    t4 = a*a/4 * d_i_m_m_i_zp(q, om, m, 0, beta)
    t5 = -(s-m2)/4*d_j_m_i(q, m, beta)
    return t1+t2+t3+t4+t5


def j_m_l_p_i(q, om, p, m, beta):
    return (p*p*j_m_l_i(q, m, beta)+om*om*j_m_t_i(q, m, beta))/(om*om+p*p)


def d_j_m_l_p_i(q, om, p, m, beta):
    return (p*p*d_j_m_l_i(q, m, beta)+om*om*d_j_m_t_i(q, m, beta))/(om*om+p*p)


def d2_j_m_l_p_i(q, om, p, m, beta):
    return (p*p*d2_j_m_l_i(q, m, beta)+om*om*d2_j_m_t_i(q, m, beta))/(om*om+p*p)


def j_m_l_p_i_zp(q, om, m, beta):
    return j_m_t_i(q, m, beta)


def d_j_m_l_p_i_zp(q, om, m, beta):
    return d_j_m_t_i(q, m, beta)


def d2_j_m_l_p_i_zp(q, om, m, beta):
    return d2_j_m_t_i(q, m, beta)


def gluon_pol_l(q, om, p, m, beta):
    s = om*om+p*p
    s2 = s*s
    m2 = m*m
    m4 = m2*m2

    t1 = (3*s2/(2*m4)-1)*i_m_m_l_i(q, om, p, 0, 0, beta)
    t2 = (4+(3*s2+8*m2*s+4*m4)/(2*m4))*i_m_m_l_i(q, om, p, m, m, beta)
    t3 = -(3*s2+4*m2*s+m4)/m4 * i_m_m_l_i(q, om, p, m, 0, beta)
    t4 = 2*s*(s+2*m2)/m2*i_m_m_i(q, om, p, m, m, beta)
    t5 = -2*s*(s+m2)/m2*i_m_m_i(q, om, p, m, 0, beta)
    t6 = -(2*s+3*m2)/m2*j_m_i(q, m, beta)
    t7 = (2*s+m2)/m2*j_m_i(q, 0, beta)
    t8 = -(8*m2+(s+2*m2)**2/m2)*d_i_m_m_l_i(q, om, p, m, m, beta)
    t9 = (s+m2)**2/m2 * d_i_m_m_l_i(q, om, p, m, 0, beta)
    t10 = -2*s*(s+4*m2)*d_i_m_m_i(q, om, p, m, m, beta)
    t11 = (s+m2)**2*d_i_m_m_i(q, om, p, m, 0, beta)
    t12 = (s+3*m2)*d_j_m_i(q, m, beta)

    t13 = -m4*d2_j_m_i(q, m, beta)
    t14 = (j_m_l_p_i(q, om, p, m, beta)-j_m_l_p_i(q, om, p, 0, beta))/m2
    t15 = -d_j_m_l_p_i(q, om, p, m, beta)
    t16 = m2/2*d2_j_m_l_p_i(q, om, p, m, beta)

    return t1+t2+t3+t4+t5+t6+t7+t8+t9+t10+t11+t12+t13+t14+t15+t16


def gluon_pol_l_zp(q, om, m, beta):
    s = om*om
    s2 = s*s
    m2 = m*m
    m4 = m2*m2

    t1 = (3*s2/(2*m4)-1)*i_m_m_l_i_zp(q, om, 0, 0, beta)
    t2 = (4+(3*s2+8*m2*s+4*m4)/(2*m4))*i_m_m_l_i_zp(q, om, m, m, beta)
    t3 = -(3*s2+4*m2*s+m4)/m4 * i_m_m_l_i_zp(q, om, m, 0, beta)
    t4 = 2*s*(s+2*m2)/m2*i_m_m_i_zp(q, om, m, m, beta)
    t5 = -2*s*(s+m2)/m2*i_m_m_i_zp(q, om,  m, 0, beta)
    t6 = -(2*s+3*m2)/m2*j_m_i(q, m, beta)
    t7 = (2*s+m2)/m2*j_m_i(q, 0, beta)
    t8 = -(8*m2+(s+2*m2)**2/m2)*d_i_m_m_l_i_zp(q, om, m, m, beta)
    t9 = (s+m2)**2/m2 * d_i_m_m_l_i_zp(q, om, m, 0, beta)
    t10 = -2*s*(s+4*m2)*d_i_m_m_i_zp(q, om, m, m, beta)
    t11 = (s+m2)**2*d_i_m_m_i_zp(q, om, m, 0, beta)
    t12 = (s+3*m2)*d_j_m_i(q, m, beta)

    t13 = -m4*d2_j_m_i(q, m, beta)
    t14 = (j_m_l_p_i_zp(q, om, m, beta)-j_m_l_p_i_zp(q, om, 0, beta))/m2
    t15 = -d_j_m_l_p_i_zp(q, om, m, beta)
    t16 = m2/2*d2_j_m_l_p_i_zp(q, om, m, beta)

    return t1+t2+t3+t4+t5+t6+t7+t8+t9+t10+t11+t12+t13+t14+t15+t16


def gluon_pol_t(q, om, p, m, beta):
    s = om*om+p*p
    s2 = s*s
    m2 = m*m
    m4 = m2*m2

    t1 = (3*s2/(2*m4)-1)*i_m_m_t_i(q, om, p, 0, 0, beta)
    t2 = (4+(3*s2+8*m2*s+4*m4)/(2*m4))*i_m_m_t_i(q, om, p, m, m, beta)
    t3 = -(3*s2+4*m2*s+m4)/m4 * i_m_m_t_i(q, om, p, m, 0, beta)
    t4 = 2*s*(s+2*m2)/m2*i_m_m_i(q, om, p, m, m, beta)
    t5 = -2*s*(s+m2)/m2*i_m_m_i(q, om, p, m, 0, beta)
    t6 = -(2*s+3*m2)/m2*j_m_i(q, m, beta)
    t7 = (2*s+m2)/m2*j_m_i(q, 0, beta)
    t8 = -(8*m2+(s+2*m2)**2/m2)*d_i_m_m_t_i(q, om, p, m, m, beta)
    t9 = (s+m2)**2/m2 * d_i_m_m_t_i(q, om, p, m, 0, beta)
    t10 = -2*s*(s+4*m2)*d_i_m_m_i(q, om, p, m, m, beta)
    t11 = (s+m2)**2*d_i_m_m_i(q, om, p, m, 0, beta)
    t12 = (s+3*m2)*d_j_m_i(q, m, beta)

    t13 = -m4*d2_j_m_i(q, m, beta)
    t14 = (j_m_t_i(q, m, beta)-j_m_t_i(q, 0, beta))/m2
    t15 = -d_j_m_t_i(q, m, beta)
    t16 = m2/2*d2_j_m_t_i(q, m, beta)

    return t1+t2+t3+t4+t5+t6+t7+t8+t9+t10+t11+t12+t13+t14+t15+t16


def gluon_pol_t_zp(q, om, m, beta):
    return gluon_pol_l_zp(q, om, m, beta)


def gluon_pol_quark_l(q, om, p, m, beta, mu):
    s = om*om+p*p
    eg = en(q, m)
    t1 = (s-4*eg**2+4j*eg*om)/(8*q*p)*tlog(q, om, p, eg, 0)
    t1opp = (s-4*eg**2-4j*eg*om)/(8*q*p)*tlog(q, -om, p, eg, 0)
    return -(s/(p*p))*fermi_double(q, m, beta, mu)*q**2/eg*(1-t1-t1opp)/(6*np.pi**2)


def gluon_pol_quark_l_zp(q, om, m, beta, mu):
    eg = en(q, m)
    return -2/(9*np.pi**2)*fermi_double(q, m, beta, mu)*q**2/eg*(3*eg**2-q**2)/(om**2+4*eg**2)


def gluon_pol_quark_trace(q, om, p, m, beta, mu):
    s = om*om+p*p
    eg = en(q, m)
    t1 = (s-2*m*m)/(8*q*p)*tlog(q, om, p, eg, 0)
    t1opp = (s-2*m*m)/(8*q*p)*tlog(q, -om, p, eg, 0)
    return -fermi_double(q, m, beta, mu)*q**2/eg*(1-t1-t1opp)/(3*np.pi**2)


def gluon_pol_quark_t(q, om, p, m, beta, mu):
    return (gluon_pol_quark_trace(q, om, p, m, beta, mu)-gluon_pol_quark_l(q, om, p, m, beta, mu))/2

