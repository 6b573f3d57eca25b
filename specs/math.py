def gcd(a, b):
  a = abs(a)
  b = abs(b)
  if b > a:
    a, b = (b, a)
  while b > 0:
    _, r = divmod(a, b)
    a, b = (b, r)
  return a

def lcm(a, b):
  return a * b // gcd(a, b)

def int_pow(n):
  for m in range(2, int(math.sqrt(n)) + 1):
    k = int(round(math.log(n, m)))
    if m ** k == n:
      return (m, k)
  return (n, 1)

def prime_factor(n):
  assert n > 0
  res = []
  for p in _primes:
    k = 0
    while n % p == 0:
      k += 1
      n //= p
    if k:
      res.append((p, k))
    if n == 1:
      return res
  raise NotImplementedError('Need more primes!')

def carmichael(n):
  res = 1
  max_k = 1
  for p, k in prime_factor(n):
    if p == 2 and k >= 3:
      lam_pk = 2 ** (k - 2)
    else:
      lam_pk = (p - 1) * p ** (k - 1)
    res = lcm(res, lam_pk)
    max_k = max(max_k, k)
  return (res, max_k)

def exp_mod(b, k, m):
  a = gcd(b, m)
  kp, k0 = carmichael(m)
  if k < k0:
    return pow(b, k, m)
  else:
    kn = (k - k0) % kp + k0
    return pow(b, kn, m)

_primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47,
           53, 59, 61, 67, 71, 73, 79, 83, 89, 97]

