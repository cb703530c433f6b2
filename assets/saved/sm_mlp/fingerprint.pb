ӱ���ث�k��낽�����㙃뛇�= 枯���(���������2