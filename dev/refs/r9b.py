edit('structure/modulemesh.py', [('''            tmp.name = self.name + str(coord)
''', '''            tmp.name = f'{self.name}{coord}'
''')])
edit('structure/moduleslice.py', [('''        self.name += ('-slice:('+str(self.inOffset)+','+str(self.indim+self.inOffset)+')('
                     +str(self.outOffset)+','+str(self.outdim+self.outOffset)+')')
''', '''        self.name += '-slice:(%d,%d)(%d,%d)' % (self.inOffset, self.indim+self.inOffset,
                                                 self.outOffset, self.outdim+self.outOffset)
''')])
