�������ɦ���ȼτ�3��ֵޝ�� ʨ��؜��(���������2